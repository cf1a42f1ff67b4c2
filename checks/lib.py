"""Obligations, verdicts, evidence and the command line of the checks."""
import json, os, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import terms as tm
from engine import vals as V
from engine.world import *
from engine.interp import AnchorMissing, Stop

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}
TECHNIQUE = {}
NOTE = {}
DEFAULT_NOTE = ('Decides, on the current source, that the value graph of the entry points equals the specified one: all inputs and all merged '
                'paths, exact real arithmetic (floating point rounding is not modelled). Equality of two graphs is decided by value numbering with '
                'random interpretations (no solver, nothing of the repository is run); an obligation the interpreter cannot represent precisely is '
                'reported as undecided in the evidence and raises no alarm. Trusts the models of torch, numpy and the other libraries in engine/.')
try: TITLES = {d['id']: d['title'] for d in map(json.loads, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')))}
except OSError: TITLES = {}


def check(pid):
    def d(f):
        REGISTRY.setdefault(pid, []).append(f)
        return f
    return d


class Ctx:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.thorough = tier == 'thorough'
        self.obl = []           # (name, verdict, where, detail)
        self.analysed = {}      # function -> times interpreted
        self.assumptions = []
        self.prefix = ''
        self.imprecise = set()

    # -- recording
    def add(self, name, verdict, where='', detail=''):
        self.obl.append((self.prefix + name, verdict, where or '', str(detail)[:600]))
        return verdict == tm.PROVED

    def holds(self, name, ok, where='', detail='', unk=False):
        """a fact decided by the caller from the analysed source"""
        return self.add(name, tm.PROVED if ok else tm.UNDECIDED if unk else tm.VIOLATED, where, '' if ok else detail)

    def undecided(self, name, detail='', where=''):
        return self.add(name, tm.UNDECIDED, where, detail)

    def eq(self, name, got, want, guard=None, where='', degenerate=False):
        got, want = E(got).t, E(want).t
        guard = E(guard).t if guard is not None else None
        v, why = tm.decide(got, want, guard, degenerate)
        return self.add(name, v, where or src(got), '' if v == tm.PROVED else '%s; computed %s; specified %s' % (why, tm.show(got, 4)[:160], tm.show(want, 4)[:160]))

    def eq_any(self, name, got, wants, guard=None, where='', degenerate=False):
        """equal to one of several equivalent specifications; the first one names all predicates and gives the verdict otherwise"""
        first = None
        for w in wants:
            k = Ctx(self.pid, self.tier); k.prefix = self.prefix
            if k.eq(name, got, w, guard, where, degenerate): first = k.obl; break
            if first is None: first = k.obl
        self.obl += first
        return first[0][1] == tm.PROVED

    def each_row(self, name, td_axis, got, want, guard=None, where=''):
        """obligation for the rows of a symbolic axis, taken apart into the members of its base spaces"""
        bs = expand(td_axis.args[0]); worst = None
        got, want = E(got).t, E(want).t
        for p, m, base in bs:
            sb = {td_axis: p}
            g = m if guard is None else tm.and_(m, tm.let(sb, E(guard).t))
            v, why = tm.decide(tm.let(sb, got), tm.let(sb, want), g)
            if worst is None or (v == tm.VIOLATED) or (v == tm.UNDECIDED and worst[0] == tm.PROVED): worst = (v, why)
            if v == tm.VIOLATED: break
        v, why = worst
        return self.add(name, v, where or src(got), '' if v == tm.PROVED else '%s; computed %s; specified %s' % (why, tm.show(got, 4)[:160], tm.show(want, 4)[:160]))

    def true(self, name, t, where='', guard=None):
        return self.eq(name, t, tm.TRUE, guard, where)

    def tensor(self, name, got, dims, cells, where='', guard=None):
        """tensor `got` has dims `dims` and the given cells (nested lists over its int dims),
        specified over the axis variables of `got`: cells may be a function of these variables."""
        if not isinstance(got, TD):
            return self.undecided(name, 'no tensor: %r' % (got,), where)
        if len(got.dims) != len(dims) or not all(same_dim(a, b) for a, b in zip(got.dims, dims)):
            v = tm.UNDECIDED if any(c.unk for c in got.cells.flat) else tm.VIOLATED
            return self.add(name + ': shape', v, where or loc_of(got), 'shape %s, specified %s' % (got.dims, tuple(dims)))
        if callable(cells): cells = cells(*[a for a in got.axes if a is not None])
        want = np.array([[x] for x in flatten(cells)], dtype=object).reshape(got.cells.shape, order='C') if True else None
        ok = True
        for i in np.ndindex(*got.cells.shape):
            ok &= self.eq('%s%s' % (name, list(i) if any(i) or got.cells.size > 1 else ''), got.cells[i], want[i], guard, where or src(got.cells[i]) or loc_of(got))
        return ok

    def scope(self, name):
        return Scope(self, name)

    def use(self, w):
        for q, n in w.it.calls.items(): self.analysed[q] = self.analysed.get(q, 0) + n
        for loc, r in w.it.imprecise: self.imprecise.add('%s: %s' % (loc, str(r)[:120]))


class Scope:
    """Analysis of one scenario; an engine failure inside leaves it undecided (never an alarm)."""
    def __init__(self, c, name): self.c = c; self.name = name
    def __enter__(self):
        self.old = self.c.prefix; self.c.prefix = self.old + self.name + ': '
        return self
    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Exception):
            last = traceback.extract_tb(tb)[-1]
            if os.environ.get('VERIF_DEBUG'): print('\n'.join(traceback.format_exception(et, ev, tb)[-3:]))
            self.c.add('analysis', tm.UNDECIDED, '', '%s: %s (%s:%d)' % (et.__name__, str(ev)[:200], os.path.basename(last.filename), last.lineno))
            self.c.prefix = self.old
            return True
        self.c.prefix = self.old
        return False


def flatten(x):
    if isinstance(x, np.ndarray): x = list(x)
    if isinstance(x, (list, tuple)):
        for y in x: yield from flatten(y)
    else: yield x


def same_dim(a, b):
    if a is b or (isinstance(a, int) and a == b): return True
    la, lb = tm.length(a), tm.length(b)
    return tm.equal(la, lb)


def src(t):
    """repository location of the operation that built the term"""
    if isinstance(t, tm.Term) and t.loc: return t.loc
    return ''


def loc_of(v): return getattr(v, 'loc', None) or ''


def where_path(loc):
    """xrd_simulator.mesh:12 -> xrd_simulator/mesh.py:12"""
    if not loc or ':' not in loc: return loc or '?'
    m, n = loc.rsplit(':', 1)
    return m.replace('.', '/') + '.py:' + n


# ------------------------------------------------------------------ row sets
_fresh = [100]

def fresh(space):
    _fresh[0] += 1
    return tm.var(space, _fresh[0])

def expand(space):
    """rows of a symbolic space over its base spaces: [(row point, membership, base variables)]"""
    k = space.kind
    if k == 'concat':
        return [(tm.inj(space, i, p), m, b) for i, part in enumerate(space.parents) for p, m, b in expand_part(part)]
    if k == 'prod':
        out = [((), tm.TRUE, ())]
        for part in space.parents:
            out = [(ps + (p,), tm.and_(m0, m), b0 + b) for ps, m0, b0 in out for p, m, b in expand_part(part)]
        return [(tm.pair(space, ps), m, b) for ps, m, b in out]
    if k == 'perm':
        return [(tm.down(space, p), m, b) for p, m, b in expand_part(space.parents[0])]
    if k in ('slice',) and space.parents:
        out = []
        for p, m, b in expand_part(space.parents[0]):
            lo, hi = space.info
            i = tm.idx(p)
            if lo is not None: m = tm.and_(m, tm.le(lo, i))
            if hi is not None: m = tm.and_(m, tm.lt(i, hi))
            out.append((tm.down(space, p), m, b))
        return out
    if space.parents and space.mask is not None and k == 'filter':
        ps = list(space.parents)
        out = [((), tm.TRUE, ())]
        for part in ps:
            out = [(q + (p,), tm.and_(m0, m), b0 + b) for q, m0, b0 in out for p, m, b in expand_part(part)]
        res = []
        for q, m, b in out:
            env = {tm.var(p, 0 if ps.index(p) == j else j): q[j] for j, p in enumerate(ps)}
            m2 = tm.and_(m, tm.let(env, space.mask))
            res.append((tm.down(space, q[0] if len(q) == 1 else tm.pair(space, q)), m2, b))
        return res
    v = fresh(space)
    return [(v, tm.TRUE, (v,))]

def expand_part(p):
    if isinstance(p, tm.Space): return expand(p)
    return [(tm.num(i), tm.TRUE, ()) for i in range(p)]

def signature(branches):
    """branches: [(membership, [column terms], base variables)].  The row multiset as one number per
    tuple of base points: rows that are permuted, split or merged differently give the same number."""
    groups = {}
    for m, cols, base in branches:
        key = tuple(sorted((v.args[0].uid for v in base)))
        order = sorted(base, key=lambda v: (v.args[0].uid, v.args[1]))
        cnt = {}; sub = {}
        for v in order:
            j = cnt.get(v.args[0], 0); cnt[v.args[0]] = j + 1
            sub[v] = tm.var(v.args[0], 60 + j)
        h = tm.ONE
        for i, col in enumerate(cols):
            h = tm.mul(h, tm.add(tm.num(1.37 + 0.61 * i + 0.113 * i * i), tm.mul(tm.num(0.7 + 0.31 * ((i * 7) % 5)), tm.fn('sin', E(col).t))))
        body = tm.let(sub, tm.ite(m, h, tm.ZERO))
        tot, ms = groups.get(key, (tm.ZERO, []))
        groups[key] = (tm.add(tot, body), ms + [tm.let(sub, m)])
    return groups


def compare_rows(c, name, got, want, where, *alternatives):
    """same multiset of rows: equal signatures in every interpretation that realises a row of either.
    alternatives: equivalent ways to state the specification (guards that are redundant left out)"""
    first = None
    for w in (want,) + alternatives:
        k = Ctx(c.pid, c.tier)
        _compare_rows(k, c.prefix + name, got, w, where)
        if first is None: first = k.obl
        if all(o[1] == tm.PROVED for o in k.obl): first = k.obl; break
    c.obl += first       # (the first statement names all predicates)


def _compare_rows(c, name, got, want, where):
    ga, wa = signature(got), signature(want)
    for key in sorted(set(ga) | set(wa)):
        g, gm = ga.get(key, (tm.ZERO, [])); w_, wm = wa.get(key, (tm.ZERO, []))
        worst = None
        for m in gm + wm:
            v, why = tm.decide(g, w_, m, degenerate=True)
            if worst is None or v == tm.VIOLATED or (v == tm.UNDECIDED and worst[0] == tm.PROVED): worst = (v, why)
            if v == tm.VIOLATED: break
        c.add(name + ' over (%s)' % ' x '.join(tm._by_uid(u).nm for u in key), worst[0], where, worst[1])


# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])


# ------------------------------------------------------------------ running
TECH = ('Value-graph dataflow analysis: the source of the entry points is interpreted abstractly (all paths merged into gated terms over '
        'symbolic index spaces, arrays of unknown length as one representative element), and the resulting terms are given value numbers '
        'by random interpretation; every obligation compares the term the code computes with the term the property specifies.')

SINGLE = frozenset('C04 C05 C06 C14 C25 C27 C36'.split())

def run(pid, tier):
    t0 = time.time()
    c = Ctx(pid, tier)
    from engine import world
    code = 0
    for f in REGISTRY[pid]:
        with c.scope(f.__name__): c.prefix = ''; f(c)
    if pid in SINGLE:
        k = Ctx(pid, tier); tm.SINGLE = True
        try:
            for f in REGISTRY[pid]:
                with k.scope(f.__name__): k.prefix = ''; f(k)
        finally: tm.SINGLE = False
        if os.environ.get('SPONE'):
            for o in k.obl:
                if o[1] != tm.PROVED: print('ONE', o[1], o[0], '|', o[3][:300])
        c.obl += [('one row of everything: ' + o[0],) + tuple(o[1:]) for o in k.obl if o[1] != tm.UNDECIDED]
    found = [o for o in c.obl if o[1] == tm.VIOLATED]
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'open']
    new = []
    for o in found:
        k = next((k for k in kf if k['obligation'] == o[0]), None)
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else: new.append(o)
    und = [o for o in c.obl if o[1] == tm.UNDECIDED]
    n = len(c.obl); proved = sum(o[1] == tm.PROVED for o in c.obl)
    EV = tempfile.mkdtemp() if os.environ.get('VERIF_NOEVIDENCE') else os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': TECH, 'obligations': n, 'discharged': proved, 'undecided': len(und), 'violated': len(found),
                       'functions_analysed': len(c.analysed), 'calls_interpreted': sum(c.analysed.values()),
                       'functions': sorted(c.analysed), 'undecided_obligations': [{'name': o[0], 'why': o[3]} for o in und][:60],
                       'imprecision': sorted(c.imprecise)[:60],
                       'samples': [{'obligation': o[0], 'verdict': o[1], 'at': where_path(o[2])} for o in c.obl[:: max(1, n // 25)]]},
          'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if new:
        rp = os.path.join(EV, '%s.violation.txt' % pid)
        with open(rp, 'w') as fh:
            for o in new:
                fh.write('%s\n  rule: %s\n  construct: %s\n  %s\n\n' % (TITLES.get(pid, pid), o[0], where_path(o[2]), o[3]))
        ev['coverage']['violating'] = [{'rule': o[0], 'construct': where_path(o[2]), 'detail': o[3]} for o in new][:40]
    json.dump(ev, open(os.path.join(EV, '%s.json' % pid), 'w'), indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed (%.1fs)' % (pid, n, proved, len(und), len(found), len(c.analysed), time.time() - t0))
    if os.environ.get('VERIF_DEBUG'):
        for o in und: print('  UNDECIDED', o[0], where_path(o[2]), o[3][:300])
    for o in new[:12]: print('  broken: %s at %s: %s' % (o[0], where_path(o[2]), o[3][:240]))
    if n == 0 or not c.analysed:
        print('nothing was analysed (the anchors of this property are gone): no verdict')
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
