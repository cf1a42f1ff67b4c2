"""Interprocedural abstract interpreter over the Python AST of the analysed package.

Builds the value graph (terms.py) and a stream of effect events.  Branches on unknown
conditions are analysed on both sides and joined; loops over index spaces are analysed
for one generic element; loop-carried values become recurrences (sum accumulations are
recognised, others are opaque).
"""
import ast, os, itertools
import numpy as np
from . import terms as tm
from . import vals as V
from .vals import *


class AnchorMissing(Exception):
    pass


class Stop(Exception):
    """this path ends (return / raise / break / continue)"""
    def __init__(self, kind): self.kind = kind


class Frame:
    __slots__ = ('oid', 'mod', 'func', 'returns', 'pc0', 'nloops', 'globals_')
    def __init__(self, oid, mod, func, pc0):
        self.oid = oid; self.mod = mod; self.func = func; self.returns = []; self.pc0 = pc0; self.nloops = 0; self.globals_ = set()


class Event:
    __slots__ = ('kind', 'loc', 'data', 'pc', 'stack', 'loops')
    def __init__(self, kind, loc, data, pc, stack, loops):
        self.kind = kind; self.loc = loc; self.data = data; self.pc = pc; self.stack = stack; self.loops = loops
    def __repr__(self): return '%s@%s %r' % (self.kind, self.loc, self.data)


class Program:
    """parsed sources of the package (shared, immutable)"""
    def __init__(self, root, pkg='xrd_simulator'):
        self.root = root; self.pkg = pkg; self.mods = {}
        d = os.path.join(root, pkg)
        for dp, dn, fns in os.walk(d):
            for f in sorted(fns):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'): rel = rel[:-9]
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        src = open(p, encoding='utf-8').read()
                        self.mods[rel] = ast.parse(src, p)
        self.nfunc = sum(isinstance(n, ast.FunctionDef) for m in self.mods.values() for n in ast.walk(m))


EXC = {'ValueError', 'AssertionError', 'TypeError', 'RuntimeError', 'KeyError', 'Exception', 'ImportError', 'IndexError',
       'NotImplementedError', 'AttributeError', 'DeprecationWarning', 'UserWarning', 'OSError', 'FileNotFoundError', 'ZeroDivisionError', 'RuntimeWarning', 'Warning', 'ArithmeticError', 'FloatingPointError', 'LookupError', 'BaseException', 'StopIteration', 'OverflowError', 'IOError'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'isinstance', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'min', 'max', 'abs', 'sum',
            'print', 'open', 'sorted', 'reversed', 'any', 'all', 'getattr', 'hasattr', 'setattr', 'round', 'hex', 'id', 'map', 'filter', 'super', 'object', 'type',
            'repr', 'callable', 'iter', 'next', 'pow', 'divmod', 'staticmethod', 'classmethod', 'property', 'frozenset', 'slice', 'format', 'vars', 'input', 'complex', 'issubclass'} | EXC


class Interp:
    MAXDEPTH = 60

    def __init__(self, prog):
        self.prog = prog
        self.heap = {}
        self._next = itertools.count(1)
        self.pc = []              # list of (term, polarity)
        self.events = []
        self.frames = []
        self.loops = []           # active symbolic loops
        self.modobj = {}          # repo module name -> oid of namespace
        self.modstate = {}
        self.loc = None
        self.imprecise = []       # (loc, reason)
        self.calls = {}           # qualified name -> count
        self.views = {}
        self.extvals = {}         # values of external attributes: path -> value
        self.exts = {}            # ext overrides: path -> function
        self.mu = set()
        self.mute = 0
        self.inputs = {}
        self.fresh = itertools.count()
        from . import extern
        self.x = extern
        self.depth = 0
        self.budget = 3000000
        self.allowmu = 0
        self.viewinfo = {}        # oid of a basic-index view -> (base handle, key, base content at creation)
        self.uniq = {}            # space of distinct values -> (source content, its variable)
        self.naccum = 0; self.recdeps = (); self.recown = frozenset(); self.last_step = []
        self._facts = {}
        self.list_loops = {}      # list oid -> loop depth at its creation
        self.born = {}            # tensor oid -> loop variables of the iteration it is created in

    # ------------------------------------------------------------------ heap helpers
    def new(self, content):
        oid = next(self._next)
        self.heap[oid] = content
        return oid

    def mkT(self, td, root=None, view_of=None):
        oid = next(self._next)
        if self.loops: self.born[oid] = tuple(l[0] for l in self.loops if l[0] is not None)
        if view_of is not None:
            td = td.repl(root=self.heap[view_of.oid].root)
            self.views.setdefault(td.root, set()).add(oid)
        elif td.root is None or root == 'new':
            td = td.repl(root=oid)
            self.views[oid] = {oid}
        else:
            self.views.setdefault(td.root, set()).add(oid)
        td.loc = td.loc or self.loc
        self.heap[oid] = td
        if V.notes:
            for n in V.notes: self.event('misaligned', [repr(x) for x in n])
            V.notes.clear()
        return T(oid)

    def newT(self, td):
        return self.mkT(td.repl(root=None))

    def td(self, v): return self.heap[v.oid]

    def mkL(self, items):
        oid = self.new(tuple(items))
        self.list_loops[oid] = len(self.loops)
        return Lst(oid)

    def items(self, l): return self.heap[l.oid]

    def mkD(self, d): return Dct(self.new(dict(d)))

    def mkO(self, cls, attrs=None):
        return Obj(self.new(dict(attrs or {})), cls)

    def attrs(self, o): return self.heap[o.oid]

    def setattr_(self, o, name, v):
        d = dict(self.heap[o.oid]); d[name] = v
        self.heap[o.oid] = d

    def event(self, kind, data=None):
        if self.mute: return
        self.events.append(Event(kind, self.loc, data, tuple(self.pc), tuple(f.func for f in self.frames), tuple(self.loops)))

    def note(self, reason):
        if not self.mute: self.imprecise.append((self.loc, reason))

    def unk(self, reason, *deps):
        self.note(reason)
        ts = [self.as_term(d) for d in deps]
        return Opq(tm.unk('%s' % (reason,), *ts), '?')

    # ------------------------------------------------------------------ conversions
    def as_term(self, v):
        """term describing any value (for uninterpreted application)"""
        if isinstance(v, Sym): return v.t
        if isinstance(v, bool): return tm.TRUE if v else tm.FALSE
        if isinstance(v, (int, float)): return tm.num(v)
        if isinstance(v, complex): return tm.num(v)
        if isinstance(v, T):
            td = self.td(v)
            if td.ndim == 0: return td.cells[()]
            axs = [a for a in td.axes if a is not None]
            return tm.tens(axs, td.flat())
        if isinstance(v, Opq): return v.t
        if isinstance(v, Phi): return tm.ite(v.c, self.as_term(v.a), self.as_term(v.b))
        if isinstance(v, str): return tm.uf('str:' + v)
        if v is None: return tm.uf('None')
        if isinstance(v, tuple): return tm.uf('tup', *[self.as_term(x) for x in v])
        if isinstance(v, Lst): return tm.uf('list', *[self.as_term(x) for x in self.items(v)])
        if isinstance(v, Gen):
            return tm.tens([v.v], [self.as_term(v.elem), v.cond])
        if isinstance(v, Dct): return tm.uf('dict', *[self.as_term(x) for k, x in sorted(self.heap[v.oid].items(), key=lambda kv: str(kv[0]))])
        if isinstance(v, Obj): return tm.uf('obj%d' % v.oid)
        if isinstance(v, Ext): return tm.uf('ext:' + v.path)
        return tm.uf('val:%s' % (type(v).__name__,))

    def to_td(self, v, lib='torch'):
        if isinstance(v, T): return self.td(v)
        if isinstance(v, bool): return V.scalar(tm.TRUE if v else tm.FALSE, 'b', lib)
        if isinstance(v, int): return V.scalar(tm.num(v), 'i64', lib)
        if isinstance(v, float): return V.scalar(tm.num(v), 'f64', lib)
        if isinstance(v, Sym): return V.scalar(v.t, {'int': 'i64', 'bool': 'b'}.get(v.ty, 'f64'), lib)
        if isinstance(v, (Lst, tuple)):
            return self.list_td(v, lib)
        if isinstance(v, Phi):
            a, b = self.to_td(v.a, lib), self.to_td(v.b, lib)
            return self.merge_td(v.c, a, b)
        if isinstance(v, Opq):
            r = self.x.opq_to_td(self, v)
            if r is not None: return r
        raise Unsupported('tensor from %r' % (v,))

    def list_td(self, v, lib):
        its = self.items(v) if isinstance(v, Lst) else v
        if len(its) == 1 and isinstance(its[0], Gen):
            g = its[0]
            e = self.uniform(self.to_td(g.elem, lib), g.v)
            var_, cells_of = self.gen_space(g)
            cells = e.map(cells_of)
            if var_ in e.axes: raise Unsupported('gen axis clash')
            return TD((var_.args[0],) + e.dims, (var_,) + e.axes, np.expand_dims(cells, 0), e.dtype, lib)
        if any(isinstance(i, Gen) for i in its):
            parts = []
            for i in its:
                if isinstance(i, Gen): parts.append(self.list_td((i,), lib))
                else: parts.append(V.expand(self.to_td(i, lib), 0))
            return V.cat(parts, 0)
        tds = [self.to_td(i, lib) for i in its]
        if not tds: return TD((0,), (None,), np.empty((0,), dtype=object), 'f64', lib)
        n = {t.ndim for t in tds}
        if len(n) != 1: raise Conflict('ragged list to tensor')
        r = V.stack(tds, 0)
        return r.repl(lib=lib)

    def uniform(self, td, v):
        """element of a sequence that is joined to one tensor: its sizes are those of the first element"""
        for j, d in enumerate(td.dims):
            if isinstance(d, tm.Space) and v in d.hfv:
                if d.kind != 'range': raise Unsupported('ragged list to tensor')
                S = tm.Range(tm.let({v: tm.nth(v.args[0], tm.ZERO)}, tm.length(d)))
                a = V.free_axis(S, set(x for x in td.axes if x is not None)); old = td.axes[j]
                td = td.repl(dims=td.dims[:j] + (S,) + td.dims[j + 1:], axes=td.axes[:j] + (a,) + td.axes[j + 1:], cells=td.map(lambda c: tm.let({old: a}, c)), root=None)
        return td

    def gen_space(self, g):
        """(axis variable, function mapping elem terms to that axis) of a generator segment"""
        if g.cond is tm.TRUE:
            return g.v, (lambda t: t)
        F = tm.Filter((g.v.args[0],), tm.let({g.v: tm.var(g.v.args[0])}, g.cond))
        f = tm.var(F)
        return f, (lambda t: tm.let({g.v: tm.up(F, 0, f)}, t))

    def is_num(self, v):
        return isinstance(v, (bool, int, float, Sym, T, complex))

    # ------------------------------------------------------------------ Phi
    def simp(self, v):
        while isinstance(v, Phi):
            r = self.known(v.c)
            if r is None: return v
            v = v.a if r else v.b
        return v

    def facts(self):
        """truth values implied by the path condition (unit propagation)"""
        key = tuple((t.id, p) for t, p in self.pc)
        f = self._facts.get(key)
        if f is not None: return f
        if len(self._facts) > 5000: self._facts.clear()
        f = {}
        work = []
        def add(t, p):
            while t.op == 'not': t = t.args[0]; p = not p
            if t.id in f: return
            f[t.id] = p
            if t.op == 'and' and p or t.op == 'or' and not p:
                add(t.args[0], p); add(t.args[1], p)
            elif t.op in ('and', 'or'): work.append((t, p))
        for t, p in self.pc: add(t, p)
        for _ in range(4):
            n = len(f)
            for t, p in list(work):
                x, y = t.args
                ex, ey = _evalc(x, f), _evalc(y, f)
                neutral = (t.op == 'and')
                if ex is neutral and ey is None: add(y, p)
                elif ey is neutral and ex is None: add(x, p)
            if len(f) == n: break
        self._facts[key] = f
        return f

    def known(self, c):
        if c is tm.TRUE: return True
        if c is tm.FALSE: return False
        k = _evalc(c, self.facts())
        if k is not None: return k
        if c.op == 'eq0' and _one_element(c.args[0]):
            # a batch is analysed for its generic size; one-element special cases are analysed separately
            self.event('degenerate', tm.show(c))
            return tm.SINGLE and any(a.op == 'len' for a in c.args[0].args)
        return None

    def lift(self, f, *vs):
        """apply f distributing over unions"""
        for i, v in enumerate(vs):
            v = self.simp(v)
            if isinstance(v, Phi):
                h0 = self.heap
                self.pc.append((v.c, True)); self.heap = dict(h0)
                try:
                    a = self.lift(f, *(vs[:i] + (v.a,) + vs[i + 1:]))
                    da = None
                except Stop as s:
                    da = s
                h1 = self.heap; self.pc.pop()
                self.pc.append((v.c, False)); self.heap = dict(h0)
                try:
                    b = self.lift(f, *(vs[:i] + (v.b,) + vs[i + 1:])); db = None
                except Stop as s:
                    db = s
                h2 = self.heap; self.pc.pop()
                if da and db: raise da
                if da: self.heap = h2; return b
                if db: self.heap = h1; return a
                self.heap = self.merge_heaps(v.c, h1, h2, h0)
                return self.merge(v.c, a, b)
            if v is not vs[i]: vs = vs[:i] + (v,) + vs[i + 1:]
        return f(*vs)

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is b: return a
        if type(a) is type(b):
            if isinstance(a, (int, float, str, bool)) and a == b: return a
            if isinstance(a, (Lst, Dct, Obj, Opq, FuncV, BoundM, BMeth, ModV, Ext, Sym, T)) and a == b: return a
        if a is _UNDEF: return b
        if b is _UNDEF: return a
        if isinstance(a, T) and isinstance(b, T):
            ta, tb = self.td(a), self.td(b)
            if len(ta.dims) == len(tb.dims) and all(x is y or (not isinstance(x, Space) and not isinstance(y, Space) and x == y) for x, y in zip(ta.dims, tb.dims)) and ta.lib == tb.lib:
                r = self.merge_td(c, ta, tb)
                if ta.root is not None and ta.root == tb.root: 
                    oid = next(self._next); r = r.repl(root=ta.root); self.heap[oid] = r; self.views.setdefault(ta.root, set()).add(oid); return T(oid)
                t = self.mkT(r.repl(root=None))
                # may alias either
                for x in (ta, tb):
                    if x.root in self.inputs: self.inputs[t.oid] = self.inputs[x.root]
                return t
            return Phi(c, a, b)
        if isinstance(a, (bool, int, float, Sym)) and isinstance(b, (bool, int, float, Sym)):
            ta, tb = self.as_term(a), self.as_term(b)
            ty = 'bool' if tm.is_bool(ta) and tm.is_bool(tb) else 'int' if self._isint(a) and self._isint(b) else 'float'
            return Sym(tm.ite(c, ta, tb), ty)
        if isinstance(a, (T, Sym, int, float)) and isinstance(b, (T, Sym, int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            ta, tb = self.to_td(a), self.to_td(b)
            if ta.ndim == tb.ndim == 0:
                return self.newT(self.merge_td(c, ta, tb))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, BoundM) and isinstance(b, BoundM) and a.f == b.f:
            return BoundM(self.merge(c, a.self_, b.self_), a.f)
        return Phi(c, a, b)

    def default_dtype(self, lib): return 'f64'

    def dimval(self, t):
        if tm.isnum(t): return int(t.args[0])
        return Sym(t, 'int')

    def _isint(self, v):
        return isinstance(v, (bool, int)) or (isinstance(v, Sym) and v.ty in ('int', 'bool'))

    def merge_td(self, c, ta, tb):
        dt = ta.dtype if ta.dtype == tb.dtype else 'mix:%s|%s' % (ta.dtype, tb.dtype)
        if len(ta.dims) == len(tb.dims) and any(x is not y and x != y for x, y in zip(ta.dims, tb.dims)) and \
                all(x is y or x == y or isinstance(x, tm.Space) or isinstance(y, tm.Space) for x, y in zip(ta.dims, tb.dims)):
            # same rank, data dependent sizes: the merged tensor has the selected sizes and unknown entries
            dims, axes, used = [], [], set()
            for x, y, ax in zip(ta.dims, tb.dims, ta.axes):
                if x is y or x == y: dims.append(x); axes.append(ax)
                else:
                    S = tm.Range(tm.ite(c, tm.length(x), tm.length(y)))
                    dims.append(S); axes.append(None)
                if axes[-1] is not None: used.add(axes[-1])
            for i, d in enumerate(dims):
                if isinstance(d, tm.Space) and axes[i] is None:
                    axes[i] = V.free_axis(d, used); used.add(axes[i])
            def whole(td): return tm.tens([a for a, d in zip(td.axes, dims) if a is not None and a not in axes], [x for x in td.flat()])
            h = tm.unk('merge of differently sized tensors', c, whole(ta), whole(tb), *sorted((a for a in axes if a is not None), key=lambda a: a in ta.axes))
            sh = tuple(1 if isinstance(d, tm.Space) else d for d in dims)
            cells = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh): cells[i] = h if not any(i) else tm.unk('merge', h, *map(tm.num, i))
            return TD(dims, axes, cells, dt, ta.lib, tags=tuple(set(ta.tags) | set(tb.tags)))
        r = V.elementwise(lambda x, y: tm.ite(c, x, y), ta, tb)
        return r.repl(dtype=dt, lib=ta.lib, tags=tuple(set(ta.tags) | set(tb.tags)))

    def merge_heaps(self, c, h1, h2, h0):
        self.heap = out = dict(h1)
        for k, v in h2.items():
            if k not in h1: out[k] = v
        for k in h2:
            if k in h1:
                a, b = h1[k], h2[k]
                if a is b: continue
                out[k] = self.merge_content(c, a, b, h0.get(k))
        return out

    def merge_content(self, c, a, b, base):
        if isinstance(a, TD) and isinstance(b, TD):
            if len(a.dims) == len(b.dims) and all(x is y or x == y for x, y in zip(a.dims, b.dims)):
                return self.merge_td(c, a, b).repl(root=a.root)
            return a.repl(cells=a.map(lambda t: tm.unk('merge of shapes', t)))
        if isinstance(a, dict):
            out = {}
            for k in a:
                out[k] = self.merge(c, a[k], b[k]) if k in b else a[k] if isinstance(k, str) and k.startswith('%') else Phi(c, a[k], _UNDEF)
            for k in b:
                if k not in a: out[k] = Phi(c, _UNDEF, b[k])
            return out
        if isinstance(a, tuple):   # list content
            n = 0
            while n < min(len(a), len(b)) and (a[n] is b[n] or (type(a[n]) == type(b[n]) and not isinstance(a[n], (Gen,)) and a[n] == b[n])): n += 1
            ra, rb = a[n:], b[n:]
            if len(ra) == len(rb):
                return a[:n] + tuple(self.merge_item(c, x, y) for x, y in zip(ra, rb))
            if not rb and all(isinstance(x, Gen) for x in ra):
                return a[:n] + tuple(Gen(x.v, tm.and_(c, x.cond), x.elem, x.loop) for x in ra)
            if not ra and all(isinstance(x, Gen) for x in rb):
                return b[:n] + tuple(Gen(x.v, tm.and_(tm.not_(c), x.cond), x.elem, x.loop) for x in rb)
            return a[:n] + (Phi(c, ('%items',) + ra, ('%items',) + rb),)
        return Phi(c, a, b)

    def merge_item(self, c, x, y):
        if isinstance(x, Gen) and isinstance(y, Gen) and x.v is y.v:
            return Gen(x.v, tm.ite(c, x.cond, y.cond) if x.cond is not y.cond else x.cond, self.merge(c, x.elem, y.elem), x.loop)
        if isinstance(x, Gen) or isinstance(y, Gen): return Phi(c, ('%items', x), ('%items', y))
        return self.merge(c, x, y)

    # ------------------------------------------------------------------ modules
    def module(self, name):
        """namespace oid of a repo module, initialising it on first use"""
        if name in self.modobj: return self.modobj[name]
        tree = self.prog.mods.get(name)
        if tree is None: raise AnchorMissing('module %s' % name)
        oid = self.new({'__name__': name})
        self.modobj[name] = oid
        fr = Frame(oid, name, name + '.<module>', len(self.pc))
        self.frames.append(fr)
        loc = self.loc
        pc = self.pc; self.pc = []
        loops = self.loops; self.loops = []
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop(); self.loc = loc; self.pc = pc; self.loops = loops
        return oid

    def get_global(self, mod, name):
        ns = self.heap[self.module(mod)]
        if name not in ns: raise AnchorMissing('%s.%s' % (mod, name))
        return ns[name]

    def cls(self, mod, name):
        v = self.get_global(mod, name)
        if not isinstance(v, ClassV): raise AnchorMissing('%s.%s is not a class' % (mod, name))
        return v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts: self.exec(s)

    def exec(self, s):
        self.loc = '%s:%d' % (self.frames[-1].mod, s.lineno)
        tm.cur_loc[0] = self.loc
        self.budget -= 1
        if self.budget < 0: raise RuntimeError('analysis budget exhausted')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('statement ' + type(s).__name__); return
        m(s)

    def s_Pass(self, s): pass
    def s_Global(self, s): self.frames[-1].globals_ |= set(s.names)
    def s_Nonlocal(self, s): self.note('nonlocal')

    def s_Import(self, s):
        for a in s.names:
            top = a.name if a.asname else a.name.split('.')[0]
            self.bind(a.asname or a.name.split('.')[0], self.import_(top))

    def import_(self, name):
        if name == self.prog.pkg or name.startswith(self.prog.pkg + '.'):
            self.module(name); return ModV(name)
        return Ext(name)

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.frames[-1].mod.split('.')
            base = base[:len(base) - s.level + (1 if self.frames[-1].mod == self.prog.pkg else 0)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if mod == '__future__': continue
            if mod in self.prog.mods:
                if a.name == '*':
                    for k, v in self.heap[self.module(mod)].items():
                        if not k.startswith('_'): self.bind(k, v)
                    continue
                if mod + '.' + a.name in self.prog.mods: v = self.import_(mod + '.' + a.name)
                else:
                    ns = self.heap[self.module(mod)]
                    if a.name not in ns:
                        raise AnchorMissing('%s.%s imported by %s' % (mod, a.name, self.frames[-1].mod))
                    v = ns[a.name]
            else: v = self.extvals.get(mod + '.' + a.name, Ext(mod + '.' + a.name))
            self.bind(a.asname or a.name, v)

    def bind(self, name, v):
        fr = self.frames[-1]
        oid = fr.oid
        if name in fr.globals_:
            oid = self.modobj[fr.mod]
            self.event('global', (fr.mod, name, v))
        d = dict(self.heap[oid]); d[name] = v
        self.heap[oid] = d

    def s_FunctionDef(self, s):
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in s.args.kw_defaults]
        f = FuncV(s, self.frames[-1].mod, self.frames[-1].oid, None, (defaults, kwd), s.name)
        v = f
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n == 'staticmethod': v = ('%static', f)
            elif n == 'classmethod': v = ('%class', f)
            elif n == 'property': v = ('%prop', f)
            elif n.endswith('.setter'): return
            elif n.split('(')[0] in ('functools.wraps', 'torch.no_grad', 'torch.inference_mode', 'functools.lru_cache', 'lru_cache', 'cache'): pass
            else: self.note('decorator ' + n)
        self.bind(s.name, v)

    def s_ClassDef(self, s):
        ns = self.new({})
        fr = Frame(ns, self.frames[-1].mod, s.name, len(self.pc)); fr.nloops = len(self.loops)
        fr2 = self.frames[-1]
        self.frames.append(fr)
        try: self.exec_block(s.body)
        finally: self.frames.pop()
        mem = dict(self.heap[ns])
        bases = []
        for b in s.bases:
            try:
                bv = self.ev(b)
                if isinstance(bv, ClassV): bases.append(bv)
            except Unsupported: pass
        c = ClassV(s.name, fr2.mod, mem, bases, s)
        for k, v in mem.items():
            f = v[1] if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('%') else v
            if isinstance(f, FuncV): f.cls = c; f.env = fr2.oid
        self.bind(s.name, c)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        fr = self.frames[-1]
        fr.returns.append((tuple(self.pc[fr.pc0:]), v, self.heap, tuple(self.loops)))
        raise Stop('return')

    def s_Raise(self, s):
        name = '?'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args: self.ev(a)
        self.event('raise', name)
        raise Stop('raise')

    def s_Assert(self, s):
        c = self.cond(s.test)
        if c is tm.TRUE: return
        if c is tm.FALSE:
            self.event('raise', 'AssertionError'); raise Stop('raise')
        self.pc.append((c, False)); self.event('raise', 'AssertionError'); self.pc.pop()
        self.pc.append((c, True))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.heap[self.frames[-1].oid]); d.pop(t.id, None)
                self.heap[self.frames[-1].oid] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value); k = self.ev_index(t.slice)
                o = self.simp(o)
                self.event('setitem', (o, k))
                if isinstance(o, Dct):
                    d = dict(self.heap[o.oid]); d.pop(k, None); self.heap[o.oid] = d
                else: self.note('del item')
            else:
                o = self.simp(self.ev(t.value))
                if isinstance(o, Obj):
                    self.event('setattr', (o, t.attr))
                    d = dict(self.heap[o.oid]); d.pop(t.attr, None); self.heap[o.oid] = d

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = self.simp(v)
            vs = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vs): self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.set_attribute(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, v)
        else: self.note('assign target')

    def set_attribute(self, o, name, v):
        o = self.simp(o)
        if isinstance(o, Phi):
            h0 = self.heap
            self.heap = dict(h0); self.pc.append((o.c, True)); self.set_attribute(o.a, name, v); h1 = self.heap; self.pc.pop()
            self.heap = dict(h0); self.pc.append((o.c, False)); self.set_attribute(o.b, name, v); h2 = self.heap; self.pc.pop()
            self.heap = self.merge_heaps(o.c, h1, h2, h0)
            return
        if isinstance(o, Obj):
            self.event('setattr', (o, name)); self.setattr_(o, name, v)
        elif isinstance(o, ModV):
            self.event('global', (o.name, name, v))
            d = dict(self.heap[self.module(o.name)]); d[name] = v; self.heap[self.module(o.name)] = d
        elif isinstance(o, ClassV):
            self.event('setattr', (o, name)); o.members[name] = v
        elif isinstance(o, Opq):
            self.event('setattr', (o, name))
        elif isinstance(o, T) and name == 'shape':
            self.note('shape assignment')
        elif isinstance(o, T) and name == 'data':
            self.store_td(o, self.to_td(v))
        else: self.note('attribute assignment on %r' % (o,))

    def unpack(self, v, n, star=None):
        if isinstance(v, Phi):
            a = self.unpack(v.a, n, star); b = self.unpack(v.b, n, star)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        its = self.iter_list(v)
        if its is None:
            if isinstance(v, Opq): return [self.x.opq_item(self, v, i) for i in range(n)]
            return [self.unk('unpack', v) for _ in range(n)]
        if star is not None:
            k = len(its) - (n - 1)
            return list(its[:star]) + [self.mkL(its[star:star + k])] + list(its[star + k:])
        if len(its) != n:
            self.event('raise', 'ValueError:unpack'); return [self.unk('unpack', v) for _ in range(n)]
        return its

    def iter_list(self, v):
        """concrete python list of the elements, or None"""
        v = self.simp(v)
        if isinstance(v, tuple): return list(v)
        if isinstance(v, Lst):
            its = self.items(v)
            if any(isinstance(i, Gen) or isinstance(i, Phi) and isinstance(i.a, tuple) and i.a[:1] == ('%items',) for i in its): return None
            return list(its)
        if isinstance(v, Dct): return list(self.heap[v.oid].keys())
        if isinstance(v, range): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, T):
            td = self.td(v)
            if td.ndim == 0: return None
            if isinstance(td.dims[0], Space): return None
            return [self.getitem(v, i) for i in range(td.dims[0])]
        return None

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            rhs = self.ev(s.value)
            cur = self.simp(cur)
            if isinstance(cur, T):
                r = self.binop(op, cur, rhs)
                self.inplace(cur, r, op, rhs)
                return
            if isinstance(cur, Lst) and op == 'Add':
                self.list_extend(cur, rhs); return
            self.bind(t.id, self.binop(op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.simp(self.getattr(o, t.attr))
            rhs = self.ev(s.value)
            if isinstance(cur, T):
                r = self.binop(op, cur, rhs)
                self.inplace(cur, r, op, rhs)
                return
            if isinstance(cur, Lst) and op == 'Add': self.list_extend(cur, rhs); return
            self.set_attribute(o, t.attr, self.binop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            rhs = self.ev(s.value)
            o2 = self.simp(o)
            if isinstance(o2, T) and op in ('Add', 'Sub') and self.x.is_scatter_key(self, self.td(o2), k):
                if op == 'Sub': rhs = self.binop('Mult', -1, rhs)
                self.deposit(o2, k, rhs, 'augadd')
                return
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, cur, rhs))

    def inplace(self, t, r, op, rhs):
        """t op= rhs with tensor t: writes t's storage"""
        r = self.simp(r)
        self.event('mutate', (self.td(t).root, t.oid, 'aug' + op))
        old = self.td(t)
        if isinstance(r, T):
            td = self.td(r)
            if td.ndim == old.ndim: td = td.repl(dtype=old.dtype)
        else:
            td = old.repl(cells=old.map(lambda c: tm.unk('inplace', c, self.as_term(r))))
        self.store_td(t, td)

    def store_td(self, t, td, deposit=False, through=True):
        old = self.heap[t.oid]
        self.heap[t.oid] = td.repl(root=old.root, lib=old.lib)
        vs = self.views.get(old.root)
        done = {t.oid}
        vi = self.viewinfo.get(t.oid)
        if vi is not None and through:
            base, key, btd = vi
            b = self.heap.get(base.oid)
            if isinstance(b, TD) and b.root == old.root and b.dims == btd.dims and b.cells.shape == btd.cells.shape:
                try:
                    try: nb = self.x.t_setitem(self, b, _rekey(key), t, base)
                    except (Unsupported, Conflict):
                        if not deposit: raise
                        nb = b.repl(cells=b.map(lambda c: tm.uf('accum%d' % self.naccum, c)))
                    if deposit and nb is not None: nb = nb.repl(tags=tuple(b.tags) + ('accum',))
                    if nb is not None:
                        self.heap[base.oid] = nb.repl(root=b.root, lib=b.lib)
                        self.viewinfo[t.oid] = (base, key, self.heap[base.oid])
                        done.add(base.oid)
                        for o in vs or ():
                            w = self.heap.get(o)
                            if o not in done and isinstance(w, TD) and w.root == b.root and w.dims == b.dims and w.cells.shape == b.cells.shape and all(x is y for x, y in zip(w.flat(), b.flat())):
                                self.heap[o] = nb.repl(root=b.root, lib=w.lib); done.add(o)
                except (Unsupported, Conflict): pass
        if vs:
            for o in vs:
                if o not in done and o in self.heap and isinstance(self.heap[o], TD) and self.heap[o].root == old.root:
                    w = self.heap[o]
                    if tuple(w.dims) == tuple(old.dims) and all(a is b for a, b in zip(w.flat(), old.flat())) and all(x is y for x, y in zip(w.axes, old.axes)):
                        self.heap[o] = td.repl(root=old.root, lib=w.lib)
                    elif deposit:
                        self.heap[o] = w.repl(cells=w.map(lambda c: tm.uf('accum%d' % self.naccum, c)), tags=tuple(w.tags) + ('accum',))
                    else:
                        self.heap[o] = w.repl(cells=w.map(lambda c: tm.unk('written through alias', c)))

    def deposit(self, t, key, val, how, extra=None):
        """accumulating scatter into t at key: recorded as a fact; content becomes an accumulator"""
        t = self.simp(t)
        if isinstance(t, Phi):
            return self.lift(lambda x: self.deposit(x, key, val, how, extra), t)
        if not isinstance(t, T):
            self.note('scatter into %r' % type(t).__name__); return None
        td = self.td(t)
        self.event('mutate', (td.root, t.oid, 'deposit'))
        self.naccum += 1; n = self.naccum
        self.event('deposit', dict(target=t, root=td.root, td=td, key=key, val=val, how=how, dtype=td.dtype, n=n, extra=extra, born=self.born.get(td.root, ())))
        cells = np.empty(td.cells.shape, dtype=object)
        for ix in np.ndindex(*td.cells.shape):        # the content at a position: what was there, and what the rows whose key is the position add
            cells[ix] = (tm.unk if how == 'put' else tm.uf)(('put%d' if how == 'put' else 'accum%d') % n, td.cells[ix], *[tm.num(i) if a is None else tm.idx(a) for i, a in zip(ix, td.axes)], *self.born.get(td.root, ()))
        self.store_td(t, td.repl(cells=cells, tags=tuple(td.tags) + ('accum',)), deposit=True)

    def s_If(self, s):
        c = self.cond(s.test)
        if c is tm.TRUE: self.exec_block(s.body); return
        if c is tm.FALSE: self.exec_block(s.orelse); return
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f, g):
        pol = True
        if c.op == 'not': c = c.args[0]; f, g = g, f
        h0 = self.heap
        self.heap = dict(h0); n = len(self.pc); self.pc.append((c, True)); s1 = s2 = None
        try: f()
        except Stop as s: s1 = s
        h1 = self.heap; pc1 = self.pc[n + 1:]; del self.pc[n:]
        self.heap = dict(h0); self.pc.append((c, False))
        try: g()
        except Stop as s: s2 = s
        h2 = self.heap; pc2 = self.pc[n + 1:]; del self.pc[n:]
        if s1 and s2:
            if s1.kind == s2.kind: self.heap = self.merge_heaps(c, h1, h2, h0); raise s1
            kinds = {s1.kind, s2.kind}
            if 'raise' in kinds or 'return' in kinds:
                # keep the loop-control outcome for the enclosing loop
                keep = s1 if s1.kind in ('break', 'continue') else s2 if s2.kind in ('break', 'continue') else s1
                self.heap = h1 if keep is s1 else h2
                raise keep
            self.heap = self.merge_heaps(c, h1, h2, h0)
            self.brk_mixed = True
            raise Stop('continue')
        if s1:
            self.heap = h2; self.pc.append((c, False)); self.pc += pc2
            if s1.kind in ('break', 'continue'): self.loop_exits[-1].append((s1.kind, c, h1, len(self.pc) - 1 - len(pc2)))
            return
        if s2:
            self.heap = h1; self.pc.append((c, True)); self.pc += pc1
            if s2.kind in ('break', 'continue'): self.loop_exits[-1].append((s2.kind, tm.not_(c), h2, len(self.pc) - 1 - len(pc1)))
            return
        self.heap = self.merge_heaps(c, h1, h2, h0)

    loop_exits = None

    def s_Break(self, s): raise Stop('break')
    def s_Continue(self, s): raise Stop('continue')

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def s_Try(self, s):
        h0 = self.heap; self.heap = dict(h0); n = len(self.pc)
        st = None
        ne = len(self.events)
        try: self.exec_block(s.body); self.exec_block(s.orelse)
        except Stop as e: st = e
        h1 = self.heap; pc1 = self.pc[n:]; del self.pc[n:]
        for e in self.events[ne:]:
            if e.kind == 'raise': e.data = 'handled:' + str(e.data) if s.handlers else e.data
        if s.handlers:
            c = tm.batom('exc@%s' % self.loc)
            outs = []
            for h in s.handlers:
                self.heap = dict(h0); self.pc.append((c, True)); st2 = None
                if h.name: self.bind(h.name, Opq(tm.uf('exception'), 'exception'))
                try: self.exec_block(h.body)
                except Stop as e: st2 = e
                del self.pc[n:]
                outs.append((st2, self.heap))
            normal = [h for e, h in outs if e is None]
            if st is None:
                self.heap = h1
                for h in normal: self.heap = self.merge_heaps(tm.not_(c), self.heap, h, h0)
                self.pc += pc1
            elif st.kind == 'raise':
                if not normal:
                    self.heap = outs[0][1]; self.exec_block(s.finalbody); raise outs[0][0]
                self.heap = normal[0]
            else:
                # body ends with return etc.; the handler may continue normally
                if normal and st.kind == 'return':
                    self.heap = normal[0]; self.pc.append((c, True))
                else:
                    self.heap = h1; self.exec_block(s.finalbody); raise st
        else:
            self.heap = h1; self.pc += pc1
            if st:
                self.exec_block(s.finalbody); raise st
        self.exec_block(s.finalbody)

    # -- loops
    def s_For(self, s):
        it = self.simp(self.ev(s.iter))
        self.run_for(s, it)

    def run_for(self, s, it):
        if isinstance(it, Phi):
            self.branch(it.c, lambda: self.run_for(s, it.a), lambda: self.run_for(s, it.b)); return
        seqs = self.iteration(it)
        if seqs is None:
            self.note('iteration over %r' % (it,))
            v = tm.var(tm.Opaque('iter@%s#%d' % (self.loc, next(self.fresh))))
            seqs = [SymIter(v, Opq(tm.unk('element', v), '?'), 'opaque')]
        broke = False
        if all(not isinstance(x, SymIter) for x in seqs):
            self._unrolled(s, seqs)
            return
        for x in seqs:
            if isinstance(x, SymIter): self.sym_loop(s, x)
            else: self._unrolled(s, [x], False)
        if s.orelse: self.exec_block(s.orelse)

    def _unrolled(self, s, seqs, orelse=True):
        if self.loop_exits is None: self.loop_exits = []
        pending = []   # (cond, heap) of conditional breaks
        n0 = len(self.pc)
        for x in seqs:
            self.loop_exits.append([])
            n = len(self.pc)
            h0 = self.heap
            self.assign(s.target, x)
            stop = None
            try: self.exec_block(s.body)
            except Stop as e: stop = e
            exits = self.loop_exits.pop()
            if stop is not None and stop.kind in ('return', 'raise'):
                if exits:
                    # some path continues/breaks normally: resume from those
                    kind, c, h, at = exits[-1]
                    self.heap = h
                    del self.pc[n:]; self.pc.append((c, True))
                    exits = exits[:-1]
                    stop = Stop(kind)
                else: raise stop
            conts = [(c, h, at) for k, c, h, at in exits if k == 'continue']
            brks = [(c, h, at) for k, c, h, at in exits if k == 'break']
            for c, h, at in reversed(conts):
                self.heap = self.merge_heaps(c, h, self.heap, h0)
                # the condition (c False) assumed after the exit no longer holds
                self.pc = [p for i, p in enumerate(self.pc) if i < n or i != at]
            if not brks: del self.pc[n:]
            for c, h, at in brks: pending.append((c, h))
            if stop is not None and stop.kind == 'break':
                for c, h in reversed(pending): self.heap = self.merge_heaps(c, h, self.heap, h0)
                del self.pc[n0:]
                return
        if orelse and s.orelse: self.exec_block(s.orelse)
        for c, h in reversed(pending): self.heap = self.merge_heaps(c, h, self.heap, h)
        if pending: del self.pc[n0:]

    def iteration(self, v):
        """list of concrete elements and/or SymIter segments"""
        v = self.simp(v)
        if isinstance(v, list): return v
        if isinstance(v, SymIter): return [v]
        if isinstance(v, tuple) and v[:1] == ('%iter',): return v[1]
        l = self.iter_list(v)
        if l is not None: return l
        if isinstance(v, Lst):
            out = []
            for i in self.items(v):
                if isinstance(i, Gen):
                    vv, f = self.gen_space(i)
                    out.append(SymIter(vv, self.map_value(i.elem, f)))
                elif isinstance(i, Phi): return None
                else: out.append(i)
            return out
        if isinstance(v, T):
            td = self.td(v)
            if td.ndim and isinstance(td.dims[0], Space):
                sp = td.dims[0]
                vv = self.loopvar(sp)
                e = self.mkT(TD(td.dims[1:], td.axes[1:], np.take(td.map(lambda c: tm.let({td.axes[0]: vv}, c)), 0, axis=0) if td.ndim > 1 else _c0(tm.let({td.axes[0]: vv}, td.cells[0])), td.dtype, td.lib), view_of=v)
                return [SymIter(vv, e)]
            return None
        if isinstance(v, Opq): return self.x.opq_iter(self, v)
        return None

    def loopvar(self, space):
        """a variable for a generic element of space, distinct from axis variables"""
        return tm.var(space, 100 + len(self.loops))

    def map_value(self, v, f):
        if isinstance(v, T): 
            td = self.td(v); return self.newT(td.repl(cells=td.map(f)))
        if isinstance(v, Sym): return Sym(f(v.t), v.ty)
        if isinstance(v, Opq): return Opq(f(v.t), v.tag, v.info)
        if isinstance(v, Phi): return Phi(f(v.c), self.map_value(v.a, f), self.map_value(v.b, f))
        if isinstance(v, tuple): return tuple(self.map_value(x, f) for x in v)
        return v

    def sym_loop(self, s, it):
        if self.loop_exits is None: self.loop_exits = []
        lv = it.v
        # generic element uses its own loop variable
        if lv.args[1] < 100:
            nv = self.loopvar(lv.args[0])
            it = SymIter(nv, self.map_value(it.elem, lambda t: tm.let({lv: nv}, t)), it.kind, tm.let({lv: nv}, it.cond)); lv = nv
        def body():
            self.assign(s.target, it.elem)
            if it.cond is not tm.TRUE: self.pc.append((it.cond, True))
            self.exec_block(s.body)
        self.loop_generic(body, lv, it.kind, s)

    def loop_generic(self, body, lv, kind, node):
        """analyse body for a generic iteration lv; resolve recurrences"""
        fr = self.frames[-1]
        h0 = dict(self.heap); n = len(self.pc); nret = len(fr.returns)
        # pass 1: discover modified state
        ev = self.events; imp = self.imprecise
        self.events = []; self.imprecise = []; self.loops.append((lv, kind, node.lineno))
        self.loop_exits.append([])
        views = {k: set(x) for k, x in self.views.items()}; inputs = dict(self.inputs)
        try: body()
        except Stop: pass
        h1 = self.heap
        for _, _, hx, _ in self.loop_exits.pop():
            for k, x in hx.items():
                if k in h0 and hx[k] is not h0[k] and h1.get(k) is h0[k]: h1 = dict(h1); h1[k] = x
        self.events = ev; self.imprecise = imp; del self.pc[n:]; del fr.returns[nret:]
        mod = [(k, h1[k]) for k in h0 if k in h1 and h1[k] is not h0[k]]
        self.heap = dict(h0)
        carried = {}          # (oid, name|None) -> (kind, initial)
        tag = next(self.fresh)
        for k, c1 in mod:
            c0 = h0[k]
            if isinstance(c0, TD):
                if 'accum' in c1.tags and 'accum' not in c0.tags or 'accum' in c0.tags:
                    continue
                mus = {}
                def mk(i):
                    m = tm.var(tm.Base('mu%d.%d.%s' % (tag, k, '_'.join(map(str, i)))))
                    self.mu.add(m); mus[i] = m; return m
                cells = np.empty(c0.cells.shape, dtype=object)
                for i in np.ndindex(c0.cells.shape): cells[i] = mk(i)
                carried[(k, None)] = ('td', c0, mus)
                self.heap[k] = c0.repl(cells=cells)
            elif isinstance(c0, dict):
                d = dict(c0)
                for nm, v0 in c0.items():
                    v1 = c1.get(nm, _UNDEF)
                    if v1 is v0 or nm.startswith('__'): continue
                    if isinstance(v0, (bool, int, float, Sym)) and isinstance(v1, (bool, int, float, Sym, T)):
                        m = tm.var(tm.Base('mu%d.%d.%s' % (tag, k, nm))); self.mu.add(m)
                        isb = isinstance(v0, bool) or (isinstance(v0, Sym) and v0.ty == 'bool')
                        d[nm] = Sym(m, 'int' if self._isint(v0) and self._isint(v1) else 'float')
                        if isb: d[nm] = Sym(tm.batom('mub', m), 'bool')
                        carried[(k, nm)] = ('num', v0, m)
                    elif isinstance(v0, T) and isinstance(v1, T):
                        t0 = h0[v0.oid]; t1 = h1.get(v1.oid)
                        if v0 == v1: continue
                        same = t1 is not None and len(t0.dims) == len(t1.dims) and all(x is y or x == y for x, y in zip(t0.dims, t1.dims))
                        if same:
                            mus = {}
                            cells = np.empty(t0.cells.shape, dtype=object)
                            for i in np.ndindex(cells.shape):
                                m = tm.var(tm.Base('mu%d.%s.%s' % (tag, nm, '_'.join(map(str, i))))); self.mu.add(m); mus[i] = m; cells[i] = m
                            d[nm] = self.newT(t0.repl(cells=cells))
                            carried[(k, nm)] = ('tn', v0, mus)
                        else:
                            # temporaries re-created on each iteration: first read sees the initial value or the previous one
                            d[nm] = Opq(tm.unk('loop-carried %s' % nm), '?'); carried[(k, nm)] = ('opq', v0, None)
                    elif isinstance(v0, (Lst, Dct, Obj, FuncV, ClassV, ModV, Ext, str)) or v0 is None or isinstance(v0, (Opq, Phi, tuple, T)):
                        d[nm] = Opq(tm.unk('loop-carried %s' % nm), '?'); carried[(k, nm)] = ('opq', v0, None)
                self.heap[k] = d
        hpre = dict(self.heap)
        # pass 2
        self.loop_exits.append([])
        stop = None
        try: body()
        except Stop as e: stop = e
        exits = self.loop_exits.pop()
        pend = [x for x in exits]
        for kindx, c, hx, at in reversed(exits):
            self.heap = self.merge_heaps(c, hx, self.heap, hpre)
        broke = any(k == 'break' for k, *_ in exits) or (stop is not None and stop.kind == 'break')
        self.loops.pop()
        del self.pc[n:]
        if lv is not None:
            for j in range(nret, len(fr.returns)):
                pcs, val, hh, lps = fr.returns[j]
                pcs2 = tuple((tm.red('any', lv.args[0], lv, t if p else tm.not_(t)), True) if lv in t.fv else (t, p) for t, p in pcs)
                fr.returns[j] = (pcs2, val, hh, lps)
        if stop is not None and stop.kind in ('return', 'raise'):
            # the loop body always leaves: the loop is either skipped or left through it
            if not exits:
                self.heap = h0
                self.pc.append((tm.batom('emptyloop@%s' % self.loc), True))
                return
        if not self.mute: self.loop_step(lv, kind, node, carried, h0, exits, stop)
        # resolve recurrences
        self.recdeps = (); self.recown = frozenset(m for m, a, b in self.last_step) if not self.mute else frozenset()
        if kind == 'while' and not self.mute:
            st = next((e for e in reversed(self.events) if e.kind == 'loopstep' and e.data['lv'] is lv), None); co = next((e for e in reversed(self.events) if e.kind == 'loopcond' and e.loops and e.loops[-1][0] is lv), None)
            own = [m for m, a, b in st.data['carried']] if st else []
            deps = {v for t in ([x for m, a, b in st.data['carried'] for x in (a, b)] if st else []) + ([co.data[0]] if co else []) + [x[1] for x in (st.data['exits'] if st else ())] for v in t.fv} - set(own)
            self.recdeps = tuple(sorted(deps, key=lambda v: v.id))        # (outer variables the loop depends on)
        for (k, nm), (kd, init, m) in carried.items():
            cur = self.heap.get(k)
            if cur is None: continue
            if kd == 'td':
                if not isinstance(cur, TD): continue
                cells = np.empty(cur.cells.shape, dtype=object)
                if cur.cells.shape != init.cells.shape:
                    self.heap[k] = cur.repl(cells=cur.map(lambda c: tm.unk('recurrence', c))); continue
                pw = [g for g in cur.tags if isinstance(g, tuple) and g[0] == 'pw' and g[1] is lv]
                if pw and len(pw) == len([g for g in pw if g[2] is pw[0][2]]) and lv is not None and kind != 'while' and not broke:
                    b = {mm: init.cells[i] for i, mm in m.items()}; b[lv] = pw[0][2]
                    self.heap[k] = cur.repl(cells=cur.map(lambda c: tm.let(b, c)), tags=tuple(g for g in cur.tags if g not in pw)); continue
                for i in np.ndindex(cells.shape): cells[i] = self.recur(cur.cells[i], m[i], init.cells[i], lv, kind, broke)
                self.heap[k] = cur.repl(cells=cells)
            else:
                v = cur.get(nm)
                if kd == 'num':
                    if isinstance(v, (bool, int, float, Sym)):
                        ty = v.ty if isinstance(v, Sym) else 'int' if isinstance(v, int) else 'float'
                        t = self.recur(self.as_term(v), m, self.as_term(init), lv, kind, broke)
                        d = dict(cur); d[nm] = Sym(t, ty if not (ty == 'bool' and not tm.is_bool(t)) else 'float'); self.heap[k] = d
                    elif isinstance(v, T) and self.td(v).ndim == 0:
                        t = self.recur(self.td(v).cells[()], m, self.as_term(init), lv, kind, broke)
                        d = dict(cur); d[nm] = self.newT(self.td(v).repl(cells=_c0(t))); self.heap[k] = d
                elif kd == 'tn' and isinstance(v, T):
                    ti = h0[init.oid]; tc = self.td(v)
                    if tc.cells.shape == ti.cells.shape:
                        cells = np.empty(tc.cells.shape, dtype=object)
                        for i in np.ndindex(cells.shape): cells[i] = self.recur(tc.cells[i], m[i], ti.cells[i], lv, kind, broke)
                        d = dict(cur); d[nm] = self.newT(tc.repl(cells=cells)); self.heap[k] = d
                elif kd == 'opq':
                    if isinstance(v, Opq) and v.tag == '?' and v.t.unk and str(v.t.args[0]).startswith('?loop-carried'):
                        d = dict(cur); d[nm] = init; self.heap[k] = d

    def loop_step(self, lv, kind, node, carried, h0, exits, stop):
        """one iteration as a fact: [(loop-carried term, value before the loop, value after an iteration)]"""
        out = []
        for (k, nm), (kd, init, m) in carried.items():
            cur = self.heap.get(k)
            if kd == 'td' and isinstance(cur, TD) and cur.cells.shape == init.cells.shape:
                out += [(m[i], init.cells[i], cur.cells[i]) for i in np.ndindex(*cur.cells.shape)]
            elif kd == 'num' and isinstance(cur, dict):
                v = cur.get(nm)
                if isinstance(v, (bool, int, float, Sym)): out.append((m, self.as_term(init), self.as_term(v)))
                elif isinstance(v, T) and self.td(v).size_one(): out.append((m, self.as_term(init), self.td(v).cells.reshape(-1)[0]))
            elif kd == 'tn' and isinstance(cur, dict) and isinstance(cur.get(nm), T):
                a, b = h0[init.oid], self.td(cur[nm])
                if b.cells.shape == a.cells.shape: out += [(m[i], a.cells[i], b.cells[i]) for i in np.ndindex(*b.cells.shape)]
        self.last_step = out
        self.event('loopstep', dict(lv=lv, kind=kind, lineno=node.lineno, carried=out, exits=[(x[0], x[1]) for x in exits], stop=stop.kind if stop else None))

    def recur(self, t, mu, init, lv, kind, broke):
        """value after the loop of a cell whose value after one iteration from mu is t"""
        if t is mu: return init
        bound = lv is not None and kind != 'while'
        if not tm.depends(t, lambda x: x is mu):
            if lv is None or lv not in t.fv or kind == 'while':
                return t if not broke and kind != 'while' else tm.ite(tm.batom('ran@%s' % self.loc), t, init)
            return tm.let({lv: tm.iatom('last', tm.length(lv.args[0]))}, t)
        if bound and not broke:
            d = self.delta(t, mu)
            if d is not None:
                return tm.add(init, tm.red('sum', lv.args[0], lv, d))
            mm = self.minmax(t, mu)
            if mm is not None:
                nm, d = mm
                r = tm.red(nm, lv.args[0], lv, d)
                return V.tmax(init, r) if nm == 'max' else V.tmin(init, r)
            if self.pointwise(t, mu) and lv not in t.fv:
                return tm.let({mu: init}, t)
        r = tm.unk('recurrence', t, init, *self.recdeps)
        r.fv = r.fv - self.recown
        return r

    def pointwise(self, t, mu):
        if t is mu: return True
        if t.op == 'ite':
            return not tm.depends(t.args[0], lambda x: x is mu) and all(self.pointwise(a, mu) or not tm.depends(a, lambda x: x is mu) for a in t.args[1:])
        return False

    def delta(self, t, mu):
        if t is mu: return tm.ZERO
        has = lambda x: tm.depends(x, lambda y: y is mu)
        if t.op == 'add':
            a, b = t.args
            ha, hb = has(a), has(b)
            if ha and not hb:
                d = self.delta(a, mu); return None if d is None else tm.add(d, b)
            if hb and not ha:
                d = self.delta(b, mu); return None if d is None else tm.add(d, a)
            return None
        if t.op == 'sub' and has(t.args[0]) and not has(t.args[1]):
            d = self.delta(t.args[0], mu); return None if d is None else tm.sub(d, t.args[1])
        if t.op == 'ite' and not has(t.args[0]):
            a = self.delta(t.args[1], mu) if has(t.args[1]) else None
            b = self.delta(t.args[2], mu) if has(t.args[2]) else None
            if a is None or b is None: return None
            return tm.ite(t.args[0], a, b)
        return None

    def minmax(self, t, mu):
        if t.op == 'ite' and t.args[0].op == 'lt0':
            c, a, b = t.args
            x, y = (c.args[0].args if c.args[0].op == 'sub' else (None, None))
            if x is None: return None
            if mu in (x, y) and mu in (a, b):
                other = b if a is mu else a
                if tm.depends(other, lambda z: z is mu): return None
                # ite(x<y, a, b): max if picks y when x<y
                if a is y and b is x: return 'max', other
                if a is x and b is y: return 'min', other
        return None

    def s_While(self, s):
        for k in range(64):
            c = self.cond(s.test)
            if c is tm.FALSE:
                self.exec_block(s.orelse); return
            if c is not tm.TRUE: break
            if self.loop_exits is None: self.loop_exits = []
            self.loop_exits.append([])
            try: self.exec_block(s.body)
            except Stop as e:
                ex = self.loop_exits.pop()
                if e.kind == 'break': return
                if e.kind == 'continue': continue
                raise
            ex = self.loop_exits.pop()
            if ex:
                self.note('while with conditional exit'); break
        if self.loop_exits is None: self.loop_exits = []
        lv = tm.var(tm.Opaque('while@%s#%d' % (self.loc, next(self.fresh))))
        def body():
            c = self.cond(s.test)
            if c is tm.FALSE: return
            if c is not tm.TRUE: self.pc.append((c, True))
            self.event('loopcond', (c, s.lineno))
            self.exec_block(s.body)
            if not self.mute:
                self.event('loopend', dict(lineno=s.lineno, frame=self.frames[-1].oid, env=dict(self.heap[self.frames[-1].oid])))
        self.loop_generic(body, lv, 'while', s)

    # ------------------------------------------------------------------ conditions
    def cond(self, node):
        """boolean term of a test expression"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            r = tm.TRUE if isand else tm.FALSE
            n = len(self.pc)
            for v in node.values:
                c = self.cond(v)
                r = tm.and_(r, c) if isand else tm.or_(r, c)
                if (isand and r is tm.FALSE) or (not isand and r is tm.TRUE): break
                if c.op not in ('true', 'false'): self.pc.append((c, isand))
            del self.pc[n:]
            return r
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not): return tm.not_(self.cond(node.operand))
        return self.truth(self.ev(node))

    def truth(self, v):
        v = self.simp(v)
        if isinstance(v, Phi):
            self.pc.append((v.c, True)); a = self.truth(v.a); self.pc.pop()
            self.pc.append((v.c, False)); b = self.truth(v.b); self.pc.pop()
            if a is b: return a
            return tm.or_(tm.and_(v.c, a), tm.and_(tm.not_(v.c), b))
        if isinstance(v, bool): return tm.TRUE if v else tm.FALSE
        if v is None: return tm.FALSE
        if isinstance(v, (int, float, str)): return tm.TRUE if v else tm.FALSE
        if isinstance(v, tuple): return tm.TRUE if v else tm.FALSE
        if isinstance(v, Sym): c = v.t
        elif isinstance(v, T):
            td = self.td(v)
            if td.size_one(): c = td.cells.reshape(-1)[0]
            else:
                return self._known_or(tm.unk('truth of tensor', self.as_term(v)))
        elif isinstance(v, Lst):
            its = self.items(v)
            if not its: return tm.FALSE
            if any(not isinstance(i, Gen) and not isinstance(i, Phi) for i in its): return tm.TRUE
            r = tm.FALSE
            for i in its:
                if isinstance(i, Gen): r = tm.or_(r, tm.red('any', i.v.args[0], i.v, i.cond) if i.cond is not tm.TRUE else tm.lt(tm.ZERO, tm.length(i.v.args[0])))
                else: r = tm.or_(r, tm.batom('truth', self.as_term(i)))
            c = r
        elif isinstance(v, Dct): return tm.TRUE if self.heap[v.oid] else tm.FALSE
        elif isinstance(v, (Obj, FuncV, BoundM, ClassV, ModV, Ext)):
            return tm.TRUE
        elif isinstance(v, Opq):
            if v.tag == 'match': pass
            c = tm._mk('batom', ('truth', v.t))
        else:
            return tm.unk('truth of %s' % type(v).__name__)
        if not tm.is_bool(c):
            c = tm.not_(tm._pred('eq0', c)) if not c.unk else tm._mk('batom', ('nz', c))
        return self._known_or(c)

    def _known_or(self, c):
        k = self.known(c)
        if k is not None: return tm.TRUE if k else tm.FALSE
        return c

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None: return self.unk('expression ' + type(n).__name__)
        return m(n)

    def x_Constant(self, n): return n.value
    def x_Name(self, n): return self.lookup(n.id)

    def lookup(self, name):
        fr = self.frames[-1]
        oid = fr.oid
        seen = 0
        if name not in fr.globals_:
            while oid is not None and seen < 20:
                ns = self.heap.get(oid, {})
                if name in ns:
                    v = ns[name]
                    if isinstance(v, Phi):
                        v = self.simp(v)
                        if isinstance(v, Phi) and (v.a is _UNDEF or v.b is _UNDEF):
                            old = Opq(tm.unk('loop-carried %s' % name), '?')       # bound by an earlier iteration, if at all
                            if len(self.loops) <= fr.nloops: v = v.b if v.a is _UNDEF else v.a
                            else: v = Phi(v.c, old, v.b) if v.a is _UNDEF else Phi(v.c, v.a, old)
                        if v is _UNDEF: break
                    if v is _UNDEF: break
                    return v
                oid = ns.get('%parent'); seen += 1
        g = self.heap[self.module(fr.mod)]
        if name in g: return g[name]
        if name in BUILTINS: return Ext('builtins.' + name)
        if name == '__name__': return fr.mod
        self.event('unbound', name)
        return self.unk('unbound name ' + name)

    def x_Tuple(self, n): return tuple(self.elts(n.elts))
    def x_List(self, n): return self.mkL(self.elts(n.elts))
    def x_Set(self, n): return self.mkL(self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value); l = self.iter_list(v)
                if l is None:
                    sv = self.simp(v)
                    if isinstance(sv, Lst): out += list(self.items(sv))
                    else: out.append(self.unk('starred', v))
                else: out += l
            else: out.append(self.ev(e))
        return out

    def x_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.simp(self.ev(v))
                if isinstance(o, Dct): d.update(self.heap[o.oid])
                else: self.note('dict **')
                continue
            kv = self.ev(k)
            vv = self.ev(v)
            if isinstance(kv, (str, int, float, bool, tuple)) or kv is None: d[kv] = vv
            else: self.note('symbolic dict key')
        return self.mkD(d)

    def x_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(str(v.value))
            else:
                x = self.simp(self.ev(v.value))
                if isinstance(x, Opq) and x.tag == 'path': x = x.info
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    sp = self.ev(v.format_spec) if v.format_spec is not None else ''
                    try: parts.append(format(x, sp) if isinstance(x, (str, int, float)) and isinstance(sp, str) and v.conversion in (-1, 115) else None)
                    except ValueError: parts.append(None)
                    continue
                parts.append(x if isinstance(x, str) else str(x) if isinstance(x, (int, float, bool)) or x is None else None)
        if all(isinstance(p, str) for p in parts): return ''.join(parts)
        return Opq(tm.uf('fstr@%s' % self.loc), 'str')

    def x_FormattedValue(self, n): return self.ev(n.value)
    def x_NamedExpr(self, n):
        v = self.ev(n.value); self.assign(n.target, v); return v

    def x_Lambda(self, n):
        return FuncV(n, self.frames[-1].mod, self.frames[-1].oid, None, ([self.ev(d) for d in n.args.defaults], [self.ev(d) if d else None for d in n.args.kw_defaults]), '<lambda>')

    def x_IfExp(self, n):
        c = self.cond(n.test)
        if c is tm.TRUE: return self.ev(n.body)
        if c is tm.FALSE: return self.ev(n.orelse)
        if c.op == 'not': c2, b1, b2 = c.args[0], n.orelse, n.body
        else: c2, b1, b2 = c, n.body, n.orelse
        h0 = self.heap
        self.heap = dict(h0); self.pc.append((c2, True)); a = self.ev(b1); h1 = self.heap; self.pc.pop()
        self.heap = dict(h0); self.pc.append((c2, False)); b = self.ev(b2); h2 = self.heap; self.pc.pop()
        self.heap = self.merge_heaps(c2, h1, h2, h0)
        return self.merge(c2, a, b)

    def x_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = self.ev(n.values[0])
        for nx in n.values[1:]:
            c = self.truth(cur)
            if c is tm.TRUE:
                if isand: cur = self.ev(nx); continue
                return cur
            if c is tm.FALSE:
                if isand: return cur
                cur = self.ev(nx); continue
            self.pc.append((c, isand)); r = self.ev(nx); self.pc.pop()
            if (isinstance(cur, (bool, Sym)) and (isinstance(cur, bool) or cur.ty == 'bool')) or (isinstance(cur, T) and self.td(cur).ndim == 0):
                rc = self.truth(r)
                cur = Sym(tm.and_(c, rc) if isand else tm.or_(c, rc), 'bool')
                if cur.t in (tm.TRUE, tm.FALSE): cur = cur.t is tm.TRUE
            else:
                cur = self.merge(c, r, cur) if isand else self.merge(c, cur, r)
        return cur

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            c = self.truth(self.ev(n.operand))
            c = tm.not_(c)
            return self.pybool(c)
        v = self.ev(n.operand)
        return self.unop(type(n.op).__name__, v)

    def pybool(self, c):
        return True if c is tm.TRUE else False if c is tm.FALSE else Sym(c, 'bool')

    def unop(self, op, v):
        def f(v):
            if isinstance(v, (bool, int, float)):
                return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
            if isinstance(v, Sym):
                if op == 'USub': return Sym(tm.neg(v.t), v.ty)
                if op == 'UAdd': return v
                if v.ty == 'bool': return self.unk('~ on python bool', v)
            if isinstance(v, T):
                td = self.td(v)
                if op == 'USub': return self.newT(td.repl(cells=td.map(tm.neg)))
                if op == 'UAdd': return self.newT(td)
                if op == 'Invert' and td.dtype == 'b': return self.newT(td.repl(cells=td.map(tm.not_)))
            return self.unk('unary ' + op, v)
        return self.lift(f, v)

    def x_BinOp(self, n):
        a = self.ev(n.left); b = self.ev(n.right)
        self.loc = '%s:%d' % (self.frames[-1].mod, n.lineno)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lift(lambda x, y: self._binop(op, x, y), a, b)

    def _binop(self, op, a, b):
        num = (bool, int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b,
                        'Mod': lambda: a % b, 'Pow': lambda: a ** b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                        'LShift': lambda: a << b, 'RShift': lambda: a >> b}[op]()
            except Exception:
                return self.unk('arith', a, b)
        if op == 'Div' and (isinstance(a, Opq) and a.tag == 'path' or isinstance(b, Opq) and b.tag == 'path'):
            return self.x.call_ext(self, 'pathlib.Path', [a, b], {})
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and op == 'Add': return a + b
            if isinstance(a, str) and op == 'Mod' and isinstance(b, (str, int, float, tuple)):
                try: return a % b if not isinstance(b, tuple) or all(isinstance(x, (str, int, float)) for x in b) else Opq(tm.uf('strop' + op, self.as_term(a), self.as_term(b)), 'str')
                except (TypeError, ValueError): pass
            if op == 'Mod' or op == 'Add': return Opq(tm.uf('strop' + op, self.as_term(a), self.as_term(b)), 'str')
            if op == 'Mult' and isinstance(a, str) and isinstance(b, int): return a * b
            return Opq(tm.uf('strop' + op, self.as_term(a), self.as_term(b)), 'str')
        if isinstance(a, Opq) and a.tag == 'str' or isinstance(b, Opq) and b.tag == 'str':
            return Opq(tm.uf('strop' + op, self.as_term(a), self.as_term(b)), 'str')
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
        if isinstance(a, Lst) and isinstance(b, Lst) and op == 'Add': return self.mkL(self.items(a) + self.items(b))
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult': return a * b
        if isinstance(a, Lst) and isinstance(b, int) and op == 'Mult' and not isinstance(b, bool): return self.mkL(self.items(a) * b)
        if isinstance(b, Lst) and isinstance(a, int) and op == 'Mult': return self.mkL(self.items(b) * a)
        if isinstance(a, Sym) and not isinstance(b, (T, Opq, Lst)) or isinstance(b, Sym) and not isinstance(a, (T, Opq, Lst)):
            if isinstance(a, num + (Sym,)) and isinstance(b, num + (Sym,)):
                t = self.scalar_op(op, self.as_term(a), self.as_term(b))
                if t is None: return self.unk('scalar ' + op, a, b)
                ty = 'bool' if tm.is_bool(t) else 'float' if op in ('Div',) or not (self._isint(a) and self._isint(b)) else 'int'
                return Sym(t, ty)
        if isinstance(a, (T, Lst, tuple) + num + (Sym,)) and isinstance(b, (T, Lst, tuple) + num + (Sym,)) and (isinstance(a, T) or isinstance(b, T)):
            ref = a if isinstance(a, T) else b
            lib = self.td(ref).lib
            if isinstance(a, T) and isinstance(b, T):
                la, lb = self.td(a).lib, self.td(b).lib
                if la != lb and self.td(a).ndim and self.td(b).ndim: self.event('mixlib', (la, lb))
            try:
                ta, tb = self.to_td(a, lib), self.to_td(b, lib)
                if op == 'MatMult': return self.newT(V.matmul(ta, tb))
                isb = ta.dtype == 'b' and tb.dtype == 'b'
                probe = self.scalar_op(op, tm.TRUE if ta.dtype == 'b' else tm.ONE, tm.TRUE if tb.dtype == 'b' else tm.ONE)
                if op in ('BitAnd', 'BitOr', 'BitXor') and not isb: return self.unk('bit op', a, b)
                da = None if not isinstance(a, T) and (ta.dtype in ('i64', 'f64', 'b')) else ta.dtype
                db = None if not isinstance(b, T) and (tb.dtype in ('i64', 'f64', 'b')) else tb.dtype
                dt = self.result_dtype(op, a, b, ta, tb)
                r = V.elementwise(lambda x, y: self.scalar_op(op, x, y), ta, tb, dtype=dt, lib='torch' if 'torch' in (ta.lib, tb.lib) else lib)
                return self.newT(r)
            except Conflict as e:
                self.event('shape', str(e))
                return self.unk('shape conflict: %s' % e, a, b)
            except Unsupported as e:
                return self.unk('%s' % e, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            # try to see opaque as a tensor
            ta = self.x.opq_to_td(self, a) if isinstance(a, Opq) else None
            tb = self.x.opq_to_td(self, b) if isinstance(b, Opq) else None
            if (ta is not None or not isinstance(a, Opq)) and (tb is not None or not isinstance(b, Opq)):
                return self._binop(op, self.newT(ta) if ta is not None else a, self.newT(tb) if tb is not None else b)
            return Opq(tm._mk('u', ('op' + op, self.as_term(a), self.as_term(b))), (a.tag if isinstance(a, Opq) else b.tag))
        return self.unk('binop %s' % op, a, b)

    def result_dtype(self, op, a, b, ta, tb):
        """dtype promotion with weak python scalars"""
        fl = lambda d: d not in ('b', 'i32', 'i64')
        def strong(v, t): return isinstance(v, T) and (t.ndim > 0 or True)
        cats = {'b': 0, 'i32': 1, 'i64': 1}
        if isinstance(a, T) and isinstance(b, T):
            # zero-dim tensors are weak within a category
            if ta.ndim == 0 and tb.ndim > 0 and cats.get(ta.dtype, 2) <= cats.get(tb.dtype, 2): d = tb.dtype
            elif tb.ndim == 0 and ta.ndim > 0 and cats.get(tb.dtype, 2) <= cats.get(ta.dtype, 2): d = ta.dtype
            else: d = V.promote(ta.dtype, tb.dtype)
        else:
            s, o, ot = (ta, b, tb) if isinstance(a, T) else (tb, a, ta)
            co = cats.get(ot.dtype, 2); cs = cats.get(s.dtype, 2)
            d = s.dtype if co <= cs else ('f64' if co == 2 else ot.dtype)
        if op == 'Div' and d in ('b', 'i32', 'i64'): d = 'f64'
        if op in ('Add', 'Sub', 'Mult', 'Pow', 'FloorDiv', 'Mod') and d == 'b': d = 'b' if op in ('Add', 'Mult') and isinstance(a, T) and isinstance(b, T) else 'i64'
        return d

    def scalar_op(self, op, x, y):
        bx, by = tm.is_bool(x), tm.is_bool(y)
        if bx and by:
            if op in ('BitAnd', 'Mult'): return tm.and_(x, y)
            if op in ('BitOr', 'Add'): return tm.or_(x, y)
            if op == 'BitXor': return tm._mk('xor', (x, y))
        if op == 'Add': return tm.add(x, y)
        if op == 'Sub': return tm.sub(x, y)
        if op == 'Mult': return tm.mul(x, y)
        if op == 'Div': return tm.div(x, y)
        if op == 'Pow': return tm.power(x, y)
        if op == 'FloorDiv': return tm.fn('floor', tm.div(x, y))
        if op == 'Mod':
            if tm.isnum(x) and tm.isnum(y): return tm.num(x.args[0] % y.args[0])
            return tm.sub(x, tm.mul(y, tm.fn('floor', tm.div(x, y))))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return None if not (bx or by) else tm.and_(x, y) if op == 'BitAnd' else tm.or_(x, y)
        return None

    def x_Compare(self, n):
        left = self.ev(n.left)
        r = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            v = self.compare(type(op).__name__, left, right)
            if r is None: r = v
            else:
                c1, c2 = self.truth(r), self.truth(v)
                r = self.pybool(tm.and_(c1, c2))
            left = right
        return r

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            if op == 'IsNot': r = tm.not_(r)
            return self.pybool(self._known_or(r))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'NotIn': r = tm.not_(r)
            return self.pybool(self._known_or(r))
        return self.lift(lambda x, y: self._compare(op, x, y), a, b)

    def is_(self, a, b):
        a = self.simp(a); b = self.simp(b)
        if isinstance(a, Phi): return tm.or_(tm.and_(a.c, self.is_(a.a, b)), tm.and_(tm.not_(a.c), self.is_(a.b, b)))
        if isinstance(b, Phi): return self.is_(b, a)
        if a is None or b is None:
            x = b if a is None else a
            if x is None: return tm.TRUE
            if isinstance(x, Opq) and (x.tag in ('?', 'maybe')): return tm.batom('isnone', x.t)
            return tm.FALSE
        if a is b: return tm.TRUE
        if isinstance(a, bool) and isinstance(b, bool): return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, (T, Obj, Lst, Dct)) and isinstance(b, type(a)): return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, Sym) and isinstance(b, bool) and a.ty == 'bool': return a.t if b else tm.not_(a.t)
        if isinstance(b, Sym) and isinstance(a, bool): return self.is_(b, a)
        if isinstance(a, Opq) or isinstance(b, Opq): return tm.batom('is', self.as_term(a), self.as_term(b))
        return tm.TRUE if type(a) == type(b) and a == b else tm.FALSE

    def contains(self, cont, x):
        cont = self.simp(cont)
        l = self.iter_list(cont)
        if isinstance(cont, str) and isinstance(x, str): return tm.TRUE if x in cont else tm.FALSE
        if isinstance(cont, Opq): return tm.batom('in', self.as_term(x), cont.t)
        if l is not None:
            r = tm.FALSE
            for y in l:
                c = self.truth(self.compare('Eq', x, y))
                r = tm.or_(r, c)
            return r
        if isinstance(cont, Lst):
            r = tm.FALSE
            for i in self.items(cont):
                if isinstance(i, Gen) and isinstance(i.elem, Sym) and i.elem.t is i.v and isinstance(x, Sym):
                    r = tm.or_(r, tm.let({i.v: x.t}, i.cond))
                elif isinstance(i, Gen):
                    e = self.truth(self.compare('Eq', x, i.elem))
                    r = tm.or_(r, tm.red('any', i.v.args[0], i.v, tm.and_(i.cond, e)))
                else: r = tm.or_(r, tm.batom('in', self.as_term(x), self.as_term(i)))
            return r
        return tm.batom('in', self.as_term(x), self.as_term(cont))

    def _compare(self, op, a, b):
        num = (bool, int, float)
        if isinstance(a, num + (str,)) and isinstance(b, num + (str,)) and (isinstance(a, str) == isinstance(b, str)):
            return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return op == 'NotEq'
            if op in ('Eq', 'NotEq'):
                r = tm.TRUE
                for x, y in zip(a, b): r = tm.and_(r, self.truth(self.compare('Eq', x, y)))
                return self.pybool(r if op == 'Eq' else tm.not_(r))
        if a is None and b is None and op in ('Eq', 'NotEq'): return op == 'Eq'
        if (a is None) != (b is None):
            if not isinstance(a, (Opq, T)) and not isinstance(b, (Opq, T)):
                return op == 'NotEq'
        if isinstance(a, (T,) + num + (Sym,)) and isinstance(b, (T,) + num + (Sym,)):
            f = {'Eq': tm.eq, 'NotEq': lambda x, y: tm.not_(tm.eq(x, y)), 'Lt': tm.lt, 'LtE': tm.le, 'Gt': lambda x, y: tm.lt(y, x), 'GtE': lambda x, y: tm.le(y, x)}[op]
            if isinstance(a, T) or isinstance(b, T):
                lib = self.td(a if isinstance(a, T) else b).lib
                try:
                    return self.newT(V.elementwise(f, self.to_td(a, lib), self.to_td(b, lib), dtype='b', lib=lib))
                except Conflict as e:
                    self.event('shape', str(e)); return self.unk('shape conflict: %s' % e, a, b)
            ta, tb = self.as_term(a), self.as_term(b)
            return self.pybool(self._known_or(f(ta, tb)))
        if isinstance(a, (Lst, Dct, Obj, Ext, ClassV)) and isinstance(b, (Lst, Dct, Obj, Ext, ClassV)) and op in ('Eq', 'NotEq'):
            if a == b: return op == 'Eq'
            la, lb = self.iter_list(a), self.iter_list(b)
            if isinstance(a, Ext) and isinstance(b, Ext): return (op == 'NotEq')
            if la is not None and lb is not None and isinstance(a, Lst):
                return self._compare(op, tuple(la), tuple(lb))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag == 'dtype' and op in ('Eq', 'NotEq') and isinstance(a.info, str) and isinstance(b.info, str) and ':' not in a.info + b.info:
            return (a.info == b.info) == (op == 'Eq')
        ta, tb = self.as_term(a), self.as_term(b)
        if isinstance(a, str) != isinstance(b, str) and not isinstance(a, Opq) and not isinstance(b, Opq) and op in ('Eq', 'NotEq'):
            return op == 'NotEq'
        if isinstance(a, Opq) or isinstance(b, Opq):
            r = tm.batom('cmp' + {'NotEq': 'Eq'}.get(op, op), ta, tb)
            # comparisons of opaque numbers
            if not (isinstance(a, (str,)) or isinstance(b, (str,)) or 'str' in (getattr(a, 'tag', ''), getattr(b, 'tag', ''))):
                f = {'Eq': tm.eq, 'NotEq': tm.eq, 'Lt': tm.lt, 'LtE': tm.le, 'Gt': lambda x, y: tm.lt(y, x), 'GtE': lambda x, y: tm.le(y, x)}[op]
                r = f(ta, tb)
            return self.pybool(self._known_or(tm.not_(r) if op == 'NotEq' else r))
        return self.pybool(tm.batom('cmp' + op, ta, tb))

    def x_Attribute(self, n):
        v = self.ev(n.value)
        return self.getattr(v, n.attr)

    def getattr(self, v, name):
        v = self.simp(v)
        if isinstance(v, Phi):
            if v.a is None and v.b is not None: return self.getattr(v.b, name)
            if v.b is None and v.a is not None: return self.getattr(v.a, name)
            return self.lift(lambda x: self.getattr(x, name), v)
        if isinstance(v, Obj):
            d = self.attrs(v)
            if name in d:
                r = self.simp(d[name])
                if isinstance(r, Phi) and (r.a is _UNDEF or r.b is _UNDEF): r = r.b if r.a is _UNDEF else r.a
                return r
            if isinstance(v.cls, ClassV):
                m = self.member(v.cls, name)
                if m is not _UNDEF:
                    return self.bind_member(m, v, v.cls)
                if name == '__class__': return v.cls
                if name == '__dict__':
                    return Dct(v.oid)             # the attributes themselves
            self.event('noattr', (v, name))
            return self.unk('missing attribute %s' % name)
        if isinstance(v, ModV):
            ns = self.heap[self.module(v.name)]
            if name in ns: return ns[name]
            if v.name + '.' + name in self.prog.mods: return self.import_(v.name + '.' + name)
            raise AnchorMissing('%s.%s' % (v.name, name))
        if isinstance(v, Ext): return self.x.ext_attr(self, v, name)
        if isinstance(v, ClassV):
            m = self.member(v, name)
            if m is not _UNDEF: return self.bind_member(m, None, v)
            if name == '__name__': return v.name
            return self.unk('class attribute ' + name)
        if isinstance(v, T): return self.x.t_attr(self, v, name)
        if isinstance(v, Opq): return self.x.opq_attr(self, v, name)
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == '%super':
            for b in v[2].bases:
                m = self.member(b, name)
                if m is not _UNDEF: return self.bind_member(m, v[1], b)
            return BMeth(None, 'noop')
        if isinstance(v, (Lst, Dct, str, tuple, Sym, int, float)): return BMeth(v, name)
        if isinstance(v, FuncV) and name == '__name__': return v.name
        return self.unk('attribute %s of %r' % (name, type(v).__name__), v)

    def member(self, c, name):
        if name in c.members: return c.members[name]
        for b in c.bases:
            r = self.member(b, name)
            if r is not _UNDEF: return r
        return _UNDEF

    def bind_member(self, m, obj, cls):
        if isinstance(m, tuple) and m and isinstance(m[0], str) and m[0] in ('%static', '%class', '%prop'):
            if m[0] == '%static': return m[1]
            if m[0] == '%class': return BoundM(cls, m[1])
            if obj is None: return m[1]
            return self.call(BoundM(obj, m[1]), [], {})
        if isinstance(m, FuncV) and obj is not None: return BoundM(obj, m)
        return m

    def x_Subscript(self, n):
        v = self.ev(n.value)
        k = self.ev_index(n.slice)
        return self.getitem(v, k)

    def ev_index(self, n):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None, self.ev(n.step) if n.step else None)
        if isinstance(n, ast.Tuple): return tuple(self.ev_index(e) for e in n.elts)
        return self.ev(n)

    def getitem(self, v, k):
        v = self.simp(v)
        if isinstance(v, Phi): return self.lift(lambda x: self.getitem(x, k), v)
        k = self.simp(k)
        if isinstance(k, Phi): return self.lift(lambda y: self.getitem(v, y), k)
        if isinstance(v, (tuple, str)) :
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int):
                try: return v[k]
                except IndexError:
                    self.event('raise', 'IndexError'); return self.unk('index')
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return v[k]
            return self.unk('tuple index', k)
        if isinstance(v, Lst):
            its = self.items(v)
            if isinstance(k, int) and all(not isinstance(i, Gen) for i in its):
                try: return its[k]
                except IndexError: return self.unk('index')
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)) and all(not isinstance(i, Gen) for i in its):
                return self.mkL(its[k])
            if len(its) == 1 and isinstance(its[0], Gen) and its[0].cond is tm.TRUE and isinstance(k, (int, Sym)):
                g = its[0]
                t = k.t if isinstance(k, Sym) else tm.nth(g.v.args[0], tm.num(k))
                return self.map_value(g.elem, lambda x: tm.let({g.v: t}, x))
            return self.unk('list index', v, k)
        if isinstance(v, Dct):
            d = self.heap[v.oid]
            if not isinstance(k, (str, int, float, bool, tuple)) and k is not None:
                return self.x.dict_sym_get(self, v, k)
            if k in d:
                r = self.simp(d[k])
                if isinstance(r, Phi) and (r.a is _UNDEF or r.b is _UNDEF): r = r.b if r.a is _UNDEF else r.a
                return r
            if '%default' in d: return d['%default'](self, k)
            self.event('keyerror', k)
            return self.unk('missing key %r' % (k,))
        if isinstance(v, T):
            try: return self.x.t_getitem(self, v, k)
            except Conflict as e:
                self.event('shape', str(e)); return self.unk('index conflict: %s' % e, v)
            except Unsupported as e: return self.unk('index: %s' % e, v)
        if isinstance(v, Opq): return self.x.opq_getitem(self, v, k)
        return self.unk('subscript of %r' % type(v).__name__, v)

    def setitem(self, o, k, v):
        o = self.simp(o); k = self.simp(k)
        if isinstance(o, Phi):
            h0 = self.heap
            self.heap = dict(h0); self.setitem(o.a, k, v); h1 = self.heap
            self.heap = dict(h0); self.setitem(o.b, k, v); h2 = self.heap
            self.heap = self.merge_heaps(o.c, h1, h2, h0); return
        self.event('setitem', (o, k, v, self.td(v) if isinstance(v, T) else None))
        if isinstance(o, Dct):
            d = dict(self.heap[o.oid])
            if isinstance(k, (str, int, float, bool, tuple)) or k is None: d[k] = v
            else: d['%sym'] = (k, v)
            self.heap[o.oid] = d
        elif isinstance(o, Lst):
            its = list(self.items(o))
            if isinstance(k, int) and all(not isinstance(i, Gen) for i in its) and -len(its) <= k < len(its):
                its[k] = v; self.heap[o.oid] = tuple(its)
            elif len(its) == 1 and isinstance(its[0], Gen) and isinstance(k, Sym):
                g = its[0]
                self.heap[o.oid] = (Gen(g.v, g.cond, self.map_value(v, lambda t: tm.let({k.t: g.v}, t)) if k.t.op == 'var' else self.unk('list store')),)
            else:
                self.heap[o.oid] = (self.unk('list store', v),)
        elif isinstance(o, T):
            td = self.td(o)
            self.event('mutate', (td.root, o.oid, 'setitem'))
            try:
                nt = self.x.t_setitem(self, td, k, v, o)
                if nt is not None: self.store_td(o, nt)
            except (Conflict, Unsupported) as e:
                if isinstance(e, Conflict): self.event('shape', str(e))
                self.note('setitem: %s' % e)
                ks = k if isinstance(k, tuple) else (k,)
                if isinstance(e, Unsupported) and (any(isinstance(self.simp(x), T) for x in ks) or 'box' in str(e)) and any(isinstance(d, Space) for d in td.dims):
                    self.deposit(o, k, v, 'put'); return         # (later entries of equal positions win)
                self.store_td(o, td.repl(cells=td.map(lambda c: tm.unk('setitem', c))))
        elif isinstance(o, Opq): pass
        else: self.note('setitem on %r' % type(o).__name__)

    def list_append(self, l, v):
        self.event('setitem', (l, 'append'))
        inner = [x for x in self.loops if x[1] != 'while' or True]
        base_loops = self.list_loops.get(l.oid, 0)
        act = self.loops[base_loops:]
        if not act:
            self.heap[l.oid] = self.items(l) + (v,)
            return
        if len(act) == 1:
            lv, kind, _ = act[0]
            self.heap[l.oid] = self.items(l) + (Gen(lv, tm.TRUE, v, kind),)
        else:
            lv = act[-1][0]
            self.heap[l.oid] = self.items(l) + (Gen(lv, tm.TRUE, self.unk('nested append', v), 'nested'),)

    def list_extend(self, l, v):
        self.event('setitem', (l, 'extend'))
        li = self.iter_list(v)
        v = self.simp(v)
        if self.loops and self.list_loops.get(l.oid, 0) < len(self.loops):
            for x in (li if li is not None else [self.unk('extend', v)]): self.list_append(l, x)
            return
        if li is not None: self.heap[l.oid] = self.items(l) + tuple(li)
        elif isinstance(v, Lst): self.heap[l.oid] = self.items(l) + self.items(v)
        else: self.heap[l.oid] = self.items(l) + (self.unk('extend', v),)

    # comprehension
    def x_ListComp(self, n): return self.comp(n, n.elt, n.generators)
    def x_GeneratorExp(self, n): return self.comp(n, n.elt, n.generators)
    def x_SetComp(self, n): return self.comp(n, n.elt, n.generators)

    def x_DictComp(self, n):
        if len(n.generators) != 1: return self.unk('dict comprehension')
        it = self.iteration(self.ev(n.generators[0].iter))
        if it is None or any(isinstance(x, SymIter) for x in it): return self.unk('dict comprehension')
        d = {}
        fr = self.frames[-1]; save = self.heap[fr.oid]
        for x in it:
            self.assign(n.generators[0].target, x)
            ok = tm.TRUE
            for c in n.generators[0].ifs: ok = tm.and_(ok, self.cond(c))
            if ok is tm.FALSE: continue
            k = self.ev(n.key); v = self.ev(n.value)
            if isinstance(k, (str, int, float, bool, tuple)): d[k] = v if ok is tm.TRUE else Phi(ok, v, _UNDEF)
            else: self.note('symbolic dict key')
        self.heap[fr.oid] = save
        return self.mkD(d)

    def comp(self, n, elt, gens):
        fr = self.frames[-1]
        save = self.heap[fr.oid]
        out = []
        try:
            self._comp(elt, gens, 0, tm.TRUE, out, [])
        finally:
            self.heap[fr.oid] = save
        return self.mkL(out)

    def _comp(self, elt, gens, j, cond, out, vs):
        if j == len(gens):
            v = self.ev(elt)
            if not vs:
                if cond is tm.TRUE: out.append(v)
                else: out.append(Phi(cond, ('%items', v), ('%items',)))
            elif len(vs) == 1: out.append(Gen(vs[0], cond, v, 'comp'))
            else: out.append(Gen(vs[-1], cond, self.unk('nested comprehension', v), 'comp'))
            return
        g = gens[j]
        it = self.iteration(self.ev(g.iter))
        if it is None:
            lv = tm.var(tm.Opaque('comp@%s#%d' % (self.loc, next(self.fresh))))
            it = [SymIter(lv, Opq(tm.unk('element', lv), '?'))]
        for x in it:
            c = cond
            n0 = len(self.pc)
            if isinstance(x, SymIter):
                lv = x.v
                if lv.args[1] < 100:
                    nv = self.loopvar(lv.args[0]); old = lv
                    x = SymIter(nv, self.map_value(x.elem, lambda t: tm.let({old: nv}, t)), x.kind, tm.let({old: nv}, x.cond)); lv = nv
                self.loops.append((lv, 'comp', 0))
                self.assign(g.target, x.elem)
                c = tm.and_(c, x.cond)
            else: self.assign(g.target, x)
            for f in g.ifs:
                fc = self.cond(f); c = tm.and_(c, fc)
                if fc not in (tm.TRUE, tm.FALSE): self.pc.append((fc, True))
            if c is not tm.FALSE:
                self._comp(elt, gens, j + 1, c, out, vs + ([x.v] if isinstance(x, SymIter) else []))
            del self.pc[n0:]
            if isinstance(x, SymIter): self.loops.pop()

    def x_Starred(self, n): return self.ev(n.value)
    def x_Slice(self, n): return self.ev_index(n)
    def x_Yield(self, n): return self.unk('yield')
    def x_Await(self, n): return self.unk('await')

    # ------------------------------------------------------------------ calls
    def x_Call(self, n):
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.simp(self.ev(k.value))
                if isinstance(o, Dct):
                    kw.update({a: b for a, b in self.heap[o.oid].items() if isinstance(a, str)})
                else: self.note('**kwargs')
            else: kw[k.arg] = self.ev(k.value)
        self.loc = '%s:%d' % (self.frames[-1].mod, n.lineno); tm.cur_loc[0] = self.loc
        r = self.call(f, args, kw)
        self.loc = '%s:%d' % (self.frames[-1].mod, n.lineno); tm.cur_loc[0] = self.loc
        return r

    def call(self, f, args, kw):
        f = self.simp(f)
        if isinstance(f, Phi): return self.lift(lambda g: self.call(g, args, kw), f)
        if isinstance(f, FuncV): return self.call_func(f, args, kw)
        if isinstance(f, BoundM):
            if isinstance(f.self_, Phi):
                return self.lift(lambda s: self.call(BoundM(s, f.f), args, kw), f.self_)
            return self.call_func(f.f, [f.self_] + list(args), kw)
        if isinstance(f, ClassV):
            o = self.mkO(f)
            m = self.member(f, '__init__')
            if m is not _UNDEF: self.call(BoundM(o, m), args, kw)
            elif args or kw: self.note('constructor of ' + f.name)
            return o
        if isinstance(f, Obj):
            if isinstance(f.cls, ClassV):
                m = self.member(f.cls, '__call__')
                if m is not _UNDEF: return self.call(BoundM(f, m), args, kw)
            return self.unk('call of object')
        if isinstance(f, Ext):
            if f.path in self.exts: return self.exts[f.path](self, args, kw)
            return self.x.call_ext(self, f.path, args, kw)
        if isinstance(f, BMeth): return self.x.call_method(self, f.self_, f.name, args, kw)
        if isinstance(f, Opq):
            return self.x.opq_call(self, f, args, kw)
        if callable(f) and getattr(f, '_model', False): return f(self, args, kw)
        return self.unk('call of %r' % type(f).__name__, *[a for a in args])

    def call_func(self, f, args, kw):
        if isinstance(f, tuple) and f[0] in ('%static', '%class', '%prop'): f = f[1]
        q = '%s.%s%s' % (f.mod, (f.cls.name + '.') if f.cls else '', f.name)
        self.calls[q] = self.calls.get(q, 0) + 1
        if q in self.exts: return self.exts[q](self, args, kw)
        if self.depth > self.MAXDEPTH: return self.unk('call depth')
        if sum(1 for fr in self.frames if fr.func == q) > 3: return self.unk('recursion')
        a = f.node.args
        defaults, kwd = f.defaults
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'%parent': f.env if f.env != self.modobj.get(f.mod) else None}
        vals = list(args)
        kw = dict(kw)
        for i, nme in enumerate(names):
            if i < len(vals): 
                env[nme] = vals[i]
                if nme in kw: self.event('raise', 'TypeError')
            elif nme in kw: env[nme] = kw.pop(nme)
            else:
                k = i - (len(names) - len(defaults))
                if k >= 0: env[nme] = defaults[k]
                else:
                    self.event('raise', 'TypeError:missing argument %s of %s' % (nme, q))
                    env[nme] = self.unk('missing argument ' + nme)
        if a.vararg: env[a.vararg.arg] = tuple(vals[len(names):])
        elif len(vals) > len(names): self.event('raise', 'TypeError:too many arguments to %s' % q)
        for x, d in zip(a.kwonlyargs, kwd):
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
            else: env[x.arg] = d
        if a.kwarg: env[a.kwarg.arg] = self.mkD(kw)
        elif kw: self.event('raise', 'TypeError:unexpected keyword %s of %s' % (sorted(kw), q))
        oid = self.new(env)
        fr = Frame(oid, f.mod, q, len(self.pc)); fr.nloops = len(self.loops)
        self.frames.append(fr); self.depth += 1
        loc = self.loc
        npc = len(self.pc); le = self.loop_exits; self.loop_exits = []
        self.event('enter', (q, args, kw, env))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            ended = None
            try: self.exec_block(f.node.body)
            except Stop as s: ended = s
            if ended is None:
                fr.returns.append((tuple(self.pc[npc:]), None, self.heap, ()))
            if not fr.returns:
                raise Stop('raise')
            # after an assert/raise the surviving assumption persists in the caller
            rets = fr.returns
            if len(rets) == 1:
                self.heap = rets[0][2]
                keep = [p for p in rets[0][0]]
                del self.pc[npc:]
                if len(rets[0][0]) and ended is not None or ended is None: self.pc += [p for p in keep if not p[0].fv]
                r = rets[0][1]
            else:
                del self.pc[npc:]
                pcs, r, h, _ = rets[-1]
                self.heap = h
                for pcs, v, h, _ in reversed(rets[:-1]):
                    g = tm.TRUE
                    for t, p in pcs: g = tm.and_(g, t if p else tm.not_(t))
                    hb = self.heap
                    self.heap = self.merge_heaps(g, h, hb, h)
                    r = self.merge(g, v, r)
            self.event('leave', (q, r))
            return r
        finally:
            self.frames.pop(); self.depth -= 1; self.loc = loc; self.loop_exits = le
            pass

    # ------------------------------------------------------------------ convenience for checks
    def run(self, f, *args, **kw):
        if not self.frames:
            top = self.new({})
            self.frames.append(Frame(top, self.prog.pkg, '<entry>', 0))
            if self.prog.pkg in self.prog.mods: self.module(self.prog.pkg)
        if self.depth == 0: self.loop_exits = []
        return self.call(f, list(args), kw)


def _evalc(c, f):
    k = f.get(c.id)
    if k is not None: return k
    if c.op == 'true': return True
    if c.op == 'false': return False
    if c.op == 'not':
        k = _evalc(c.args[0], f); return None if k is None else not k
    if c.op in ('and', 'or'):
        a, b = _evalc(c.args[0], f), _evalc(c.args[1], f)
        if c.op == 'and':
            if a is False or b is False: return False
            return True if a and b else None
        if a or b: return True
        return False if a is False and b is False else None
    return None

def _is_len(t):
    if t.op == 'add': return _is_len(t.args[0]) and _is_len(t.args[1])
    return t.op == 'len'

def _one_element(t):
    if t.op != 'sub': return False
    a, b = t.args
    return (_is_len(a) and b is tm.ONE) or (_is_len(b) and a is tm.ONE)

def _rekey(key):
    return tuple(Sym(x[1], 'int') if isinstance(x, tuple) and x and x[0] == 'i' else x for x in key)

def _conjs(t):
    if t.op == 'and': return [t] + _conjs(t.args[0]) + _conjs(t.args[1])
    return [t]

def _disjs(t):
    if t.op == 'or': return [t] + _disjs(t.args[0]) + _disjs(t.args[1])
    return [t]

def _c0(t):
    c = np.empty((), dtype=object); c[()] = t
    return c

class _Undef:
    def __repr__(self): return 'UNDEF'
_UNDEF = _Undef()

def _size_one(self):
    return all((not isinstance(d, Space)) and d == 1 for d in self.dims)
TD.size_one = _size_one
