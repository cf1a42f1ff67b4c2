"""Development aid: syntactic mutants of every function, each run against the checks whose evidence lists that function.
usage: automut.py OUT.json [--files a.py,b.py] [--n N] [--seed S] [--workers W] [--only substring]"""
import warnings; warnings.simplefilter("ignore")
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile, collections
from concurrent.futures import ThreadPoolExecutor
SRC = '/repo/xrd_simulator'

def covering():
    by = collections.defaultdict(list)
    for f in glob.glob('/verif/evidence/C*.json'):
        d = json.load(open(f))
        for q in d['coverage']['functions']: by[q].append((len(d['coverage']['functions']), d['property']))
    return {q: [p for _, p in sorted(v)] for q, v in by.items()}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult}
NAMES = {'min': 'max', 'max': 'min', 'minimum': 'maximum', 'maximum': 'minimum', 'floor': 'ceil', 'ceil': 'floor', 'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'argmax': 'argmin',
         'arcsin': 'arccos', 'arccos': 'arcsin', 'zeros': 'ones', 'sum': 'mean', 'mean': 'sum', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'rad2deg': 'deg2rad', 'degrees': 'radians', 'abs': 'sqrt', 'round': 'floor', 'isfinite': 'isnan', 'deepcopy': 'copy', 'vstack': 'hstack', 'nanmin': 'nanmax', 'amin': 'amax', 'amax': 'amin'}

def sites(tree):
    """(qualname, description, mutate(tree copy's node)) for all mutable nodes, by preorder index"""
    out = []; order = list(ast.walk(tree)); idx = {id(n): i for i, n in enumerate(order)}
    def visit(n, q):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): q = q + [n.name]
        infn = any(True for _ in q)
        if isinstance(n, ast.FunctionDef):
            for i, d in enumerate(n.args.defaults):
                if isinstance(d, ast.Constant): emit(d, q)
            for b in body_of(n):
                visit(b, q)
            return
        emit(n, q)
        for ch in ast.iter_child_nodes(n):
            if isinstance(n, ast.Raise): continue
            visit(ch, q)
    def body_of(n):
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant): b = b[1:]
        return b
    def emit(n, q):
        i = idx[id(n)]; ln = getattr(n, 'lineno', 0); qn = '.'.join(q)
        if not q: return
        A = lambda d, f: out.append((qn, ln, d, i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            if o in CMP: A('cmp %s->%s' % (o.__name__, CMP[o].__name__), lambda m: setattr(m, 'ops', [CMP[o]()]))
            if o in FLIP: A('cmp %s->%s' % (o.__name__, FLIP[o].__name__), lambda m: setattr(m, 'ops', [FLIP[o]()]))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            A('bin %s->%s' % (type(n.op).__name__, BIN[type(n.op)].__name__), lambda m: setattr(m, 'op', BIN[type(m.op)]()))
            A('bin %s: left only' % type(n.op).__name__, lambda m: ('replace', m.left))
            if isinstance(n.op, (ast.Sub, ast.Div)): A('bin %s: swap' % type(n.op).__name__, lambda m: (setattr(m, 'left', m.right), setattr(m, 'right', n.left)) and None)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): A('const %s' % v, lambda m: setattr(m, 'value', not v))
            elif isinstance(v, int): 
                A('const %s+1' % v, lambda m: setattr(m, 'value', v + 1))
                if v: A('const %s-1' % v, lambda m: setattr(m, 'value', v - 1))
            elif isinstance(v, float): A('const %s*1.5' % v, lambda m: setattr(m, 'value', v * 1.5 if v else 1.0))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            A('drop unary', lambda m: ('replace', m.operand))
        elif isinstance(n, ast.BoolOp):
            A('boolop', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            A('boolop drop last', lambda m: setattr(m, 'values', m.values[:-1]) if len(m.values) > 2 else ('replace', m.values[0]))
            A('boolop drop first', lambda m: setattr(m, 'values', m.values[1:]) if len(m.values) > 2 else ('replace', m.values[1]))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES: A('name %s' % n.attr, lambda m: setattr(m, 'attr', NAMES[m.attr]))
        elif isinstance(n, ast.Name) and n.id in NAMES: A('name %s' % n.id, lambda m: setattr(m, 'id', NAMES[m.id]))
        elif isinstance(n, ast.Slice):
            if n.lower is not None: A('slice drop lower', lambda m: setattr(m, 'lower', None))
            if n.upper is not None: A('slice drop upper', lambda m: setattr(m, 'upper', None))
        elif isinstance(n, ast.If):
            A('if true', lambda m: setattr(m, 'test', ast.Constant(True))); A('if false', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            A('ifexp body', lambda m: ('replace', m.body)); A('ifexp else', lambda m: ('replace', m.orelse))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets)):
            A('delete statement', lambda m: ('replace', ast.Pass()))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            A('delete reassignment', lambda m: ('replace', ast.Pass()))
        elif isinstance(n, (ast.Break, ast.Continue)): A('delete jump', lambda m: ('replace', ast.Pass()))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ('clone', 'copy', 'flatten', 'contiguous', 'abs', 'conj', 'T'): A('drop call .%s' % n.func.attr, lambda m: ('replace', m.func.value))
            if len(n.args) >= 2: A('swap args', lambda m: setattr(m, 'args', [m.args[1], m.args[0]] + m.args[2:]))
            if n.keywords: A('drop kw %s' % n.keywords[-1].arg, lambda m: setattr(m, 'keywords', m.keywords[:-1]))
            if len(n.args) == 1 and not n.keywords: A('call -> argument', lambda m: ('replace', m.args[0]))
        elif isinstance(n, ast.Attribute) and n.attr in ('T', 'mT'): A('drop .T', lambda m: ('replace', m.value))
    for ch in tree.body: visit(ch, [])
    return out

class Rep(ast.NodeTransformer):
    def __init__(self, t, n): self.t, self.n = t, n
    def visit(self, m): return self.n if m is self.t else super().visit(m)

def mutated(src, site):
    tree = ast.parse(src); n = list(ast.walk(tree))[site[3]]
    r = site[4](n)
    if isinstance(r, tuple) and r[0] == 'replace': tree = Rep(n, r[1]).visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree))

def run(job):
    f, site, ids = job
    d = tempfile.mkdtemp(prefix='amut')
    try:
        shutil.copytree(SRC, d + '/xrd_simulator', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, 'xrd_simulator', f); src = open(p).read()
        try: new = mutated(src, site)
        except Exception as e: return job, 'BAD', repr(e)
        if ast.unparse(ast.parse(src)) == new: return job, 'SAME', ''
        open(p, 'w').write(new); und = []
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1', VERIF_DEBUG='1')
        for i in range(0, len(ids), 1):
            try: r = subprocess.run(['python3-vt', '/verif/checks/run.py', ids[i]], capture_output=True, text=True, env=env, timeout=900)
            except subprocess.TimeoutExpired: und.append(ids[i] + ' TIMEOUT'); continue
            if r.returncode == 1: return job, 'caught', ids[i]
            if r.returncode: und.append('%s rc=%d %s' % (ids[i], r.returncode, r.stderr[-200:]))
            u = [l for l in r.stdout.splitlines() if 'UNDECIDED' in l]
            if u: und.append('%s und %d' % (ids[i], len(u)))
        return job, 'SURVIVED', '; '.join(und)
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    arg = lambda k, dflt: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else dflt
    files = arg('--files', ','.join(sorted(x for x in os.listdir(SRC) if x.endswith('.py')))).split(',')
    rnd = random.Random(int(arg('--seed', '1'))); by = covering(); jobs = []; none = collections.Counter()
    for f in files:
        src = open(os.path.join(SRC, f)).read(); mod = 'xrd_simulator.' + f[:-3]
        for s in sites(ast.parse(src)):
            q = mod + '.' + s[0]
            if arg('--only', '') not in q: continue
            ids = by.get(q)
            if not ids:
                none[q] += 1; continue
            jobs.append((f, s, ids))
    print(len(jobs), 'sites; not analysed by any check:', dict(none), flush=True)
    rnd.shuffle(jobs); jobs = jobs[:int(arg('--n', '100000'))]
    res = []
    with ThreadPoolExecutor(int(arg('--workers', '7'))) as ex:
        for (f, s, ids), st, info in ex.map(run, jobs):
            res.append((f, s[0], s[1], s[2], st, info))
            if st not in ('caught', 'SAME'): print('%s:%d %s [%s] %s %s' % (f, s[1], s[0], s[2], st, info), flush=True)
    json.dump(res, open(sys.argv[1], 'w'))
    print(collections.Counter(r[4] for r in res))
if __name__ == '__main__': main()
