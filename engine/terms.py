"""Value graph: hash-consed terms over symbolic index spaces, and value numbering.

A term denotes a scalar as a function of index variables (one per symbolic batch axis).
Two terms get the same value number when they denote the same function; this is decided by
random interpretation (Gulwani & Necula): atoms are mapped to random numbers, index spaces to
small random finite models, predicates to random truth states, and the graph is folded.
Nothing of the analysed program is executed: only the term graph is folded.
"""
import cmath, hashlib, math, struct, sys
sys.setrecursionlimit(200000)

NSUB = 3           # independent random interpretations per lane
N_GENERIC = 6      # lanes with generic predicate states, used for numeric value numbers
N_ALL = 40         # further lanes with degenerate states (zero, nan, inf) for boolean facts

# ----------------------------------------------------------------------------- spaces
_NOFV = frozenset()
class Space:
    _tab = {}
    __slots__ = ('kind', 'key', 'parents', 'mask', 'info', 'uid', 'nm', 'hfv')

    def __repr__(self):
        return self.nm

def _space(kind, key, **kw):
    k = (kind,) + tuple(key)
    s = Space._tab.get(k)
    if s is None:
        s = Space()
        s.kind = kind; s.key = k; s.parents = kw.get('parents', ()); s.mask = kw.get('mask')
        s.info = kw.get('info'); s.uid = len(Space._tab); s.nm = kw.get('nm') or '%s%d' % (kind, s.uid)
        h = _NOFV          # variables the extent of the space depends on
        for p in s.parents:
            if isinstance(p, Space): h = h | p.hfv
        if s.mask is not None: h = h | frozenset(v for v in s.mask.fv if not any(v.args[0] is p for p in s.parents))
        for i in s.info if isinstance(s.info, tuple) else (s.info,):
            if isinstance(i, Term): h = h | i.fv
        s.hfv = h
        Space._tab[k] = s
    return s

def Base(name):
    return _space('base', (name,), nm=name)

def Range(n, nm=None):
    return _space('range', (n.id,), info=n, nm=nm)

def Concat(parts):
    return _space('concat', tuple(p.uid if isinstance(p, Space) else ('i', p) for p in parts), parents=tuple(parts))

def Prod(parts):
    return _space('prod', tuple(p.uid if isinstance(p, Space) else ('i', p) for p in parts), parents=tuple(parts))

_filters = []
def Filter(parents, mask, kind='filter'):
    """Subspace of the product of `parents` (spaces) where mask (over canonical vars) holds."""
    k = tuple(p.uid for p in parents) + (mask.id,)
    full = (kind,) + k
    if full in Space._tab:
        return Space._tab[full]
    for f in _filters:           # same parents and equivalent mask -> same space
        if f.kind == kind and len(f.parents) == len(parents) and all(a is b for a, b in zip(f.parents, parents)) and equal(f.mask, mask):
            Space._tab[full] = f
            return f
    s = _space(kind, k, parents=tuple(parents), mask=mask)
    _filters.append(s)
    return s

def Slice(parent, lo, hi):
    """parent[lo:hi] along a symbolic axis; lo, hi are terms or None."""
    for f in _filters:
        if f.kind == 'slice' and f.parents[0] is parent and _same_opt(f.info[0], lo) and _same_opt(f.info[1], hi):
            return f
    s = _space('slice', (parent.uid, lo.id if lo is not None else None, hi.id if hi is not None else None), parents=(parent,), info=(lo, hi))
    _filters.append(s)
    return s

def Perm(parent, key):
    return _space('perm', (parent.uid, key), parents=(parent,))

def Opaque(key):
    return _space('opaque', (key,))

def _same_opt(a, b):
    if a is None or b is None:
        return a is b
    return a is b or equal(a, b)

# ----------------------------------------------------------------------------- terms
class Term:
    _tab = {}
    __slots__ = ('op', 'args', 'fv', 'id', 'unk', 'loc', '__weakref__')

    def __repr__(self):
        return show(self)


import re
_ofspace = re.compile(r'(?:in|at|nth)(\d+)$').match
cur_loc = [None]

def _mk(op, args, unk=False, binds=_NOFV):
    k = (op,) + tuple((a.id if isinstance(a, Term) else ('S', a.uid) if isinstance(a, Space) else (type(a).__name__, a)) for a in args) + (('?',) if unk else ())
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.op = op; t.args = tuple(args); t.id = len(Term._tab)
        fv = _NOFV; u = unk
        for a in args:
            if isinstance(a, Term):
                if a.fv and not a.fv <= fv:
                    fv = fv | a.fv
                u = u or a.unk
            elif isinstance(a, Space) and a.hfv: fv = fv | a.hfv
        if op in ('iatom', 'batom') and isinstance(args[0], str):
            m = _ofspace(args[0])
            if m:
                sp = _by_uid(int(m.group(1)))
                if sp is not None and sp.hfv: fv = fv | sp.hfv
        if binds:
            fv = fv - binds
        t.fv = fv; t.unk = u; t.loc = cur_loc[0]
        Term._tab[k] = t
    return t

def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, complex):
        return _mk('num', (v,))
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else neg(INF)
    return _mk('num', (v,))

NAN = _mk('const', ('nan',)); INF = _mk('const', ('inf',))
TRUE = _mk('true', ()); FALSE = _mk('false', ())
ZERO = num(0); ONE = num(1)

def var(space, k=0):
    t = _mk('var', (space, k))
    if t not in t.fv:
        t.fv = t.fv | frozenset((t,))
    return t

def atom(name, *idx, pos=False):
    return _mk('atom', (name, bool(pos)) + tuple(idx))

def iatom(name, *idx):            # index valued atom
    return _mk('iatom', (name,) + tuple(idx))

def choice(name, n, *idx):        # integer atom in 0..n-1
    return _mk('choice', (name, n) + tuple(idx))

def batom(name, *args):           # boolean atom
    return _mk('batom', (name,) + tuple(args))

def unk(reason, *args):
    return _mk('u', ('?' + reason,) + tuple(args), unk=True)

def uf(name, *args):              # uninterpreted (but known) function
    return _mk('u', (name,) + tuple(args))

def isnum(t):
    return t.op == 'num'

def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] + b.args[0])
    if isnum(a) and a.args[0] == 0: return b
    if isnum(b) and b.args[0] == 0: return a
    return _mk('add', (a, b))

def neg(a):
    if isnum(a): return num(-a.args[0])
    return _mk('neg', (a,))

def sub(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] - b.args[0])
    if isnum(b) and b.args[0] == 0: return a
    return _mk('sub', (a, b))

def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] * b.args[0])
    if isnum(a):
        if a.args[0] == 1: return b
        if a.args[0] == 0: return ZERO
    if isnum(b):
        if b.args[0] == 1: return a
        if b.args[0] == 0: return ZERO
    return _mk('mul', (a, b))

def div(a, b):
    if isnum(b):
        if isnum(a) and b.args[0] != 0: return num(a.args[0] / b.args[0])
        if b.args[0] == 1: return a
    return _mk('div', (a, b))

def power(a, b):
    if isnum(a) and isnum(b):
        try:
            return num(a.args[0] ** b.args[0])
        except Exception:
            pass
    if isnum(b) and b.args[0] == 1: return a
    return _mk('pow', (a, b))

_INTOPS = {'floor', 'ceil', 'round', 'trunc', 'bucketize'}
def int_valued(t):
    if t.op == 'num': return isinstance(t.args[0], float) and t.args[0] == math.floor(t.args[0])
    if t.op == 'fn': return t.args[0] in _INTOPS
    if t.op in ('len', 'iatom', 'choice', 'up', 'down', 'pair', 'proj', 'idx', 'var', 'true', 'false'): return True
    if t.op in ('add', 'sub', 'mul', 'neg'): return all(int_valued(a) for a in t.args)
    if t.op == 'ite': return int_valued(t.args[1]) and int_valued(t.args[2])
    if t.op == 'let': return int_valued(t.args[0])
    if t.op == 'case': return all(int_valued(t.args[2 + 2 * i]) for i in range((len(t.args) - 1) // 2))
    if t.op == 'sel': return all(int_valued(a) for a in t.args[1:])
    return is_bool(t)

_F = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'sqrt': math.sqrt, 'abs': abs,
      'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'log': math.log,
      'floor': math.floor, 'ceil': math.ceil, 'round': round, 'trunc': math.trunc}
def fn(name, *args):
    if len(args) == 1 and isnum(args[0]) and name in _F and not isinstance(args[0].args[0], complex):
        try:
            return num(_F[name](args[0].args[0]))
        except Exception:
            pass
    if name in ('trunc', 'floor', 'ceil', 'round') and int_valued(args[0]):
        return args[0]
    return _mk('fn', (name,) + args)

_BOOL = {'true', 'false', 'lt0', 'le0', 'eq0', 'isnan', 'isfinite', 'isinf', 'and', 'or', 'not', 'batom', 'bred', 'xor'}
def is_bool(t):
    if t.op in _BOOL: return True
    if t.op == 'ite': return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == 'let': return is_bool(t.args[0])
    if t.op == 'case': return all(is_bool(t.args[2 + 2 * i]) for i in range((len(t.args) - 1) // 2))
    if t.op == 'sel': return all(is_bool(a) for a in t.args[1:])
    return False

def _pred(op, d):
    if isnum(d):
        v = d.args[0]
        return TRUE if {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0}[op] else FALSE
    if d is NAN: return FALSE
    if op != 'eq0':
        m = _extremum(d)
        if m:    # max x < c for all x < c, min x < c for some x < c
            sign, r, rest = m; name, v, body = r.args
            if v not in rest.fv: return red('all' if (name == 'max') == (sign > 0) else 'any', v.args[0], v, _pred(op, add(body if sign > 0 else neg(body), rest)))
    return _mk(op, (d,))

def _extremum(d, depth=0):
    if d.op == 'red': return (1, d, ZERO) if d.args[0] in ('max', 'min') else None
    if depth > 3: return None
    if d.op == 'neg':
        m = _extremum(d.args[0], depth + 1)
        return m and (-m[0], m[1], neg(m[2]))
    if d.op in ('add', 'sub'):
        a, b = d.args; x, y = _extremum(a, depth + 1), _extremum(b, depth + 1)
        if x and not y: return x[0], x[1], (add if d.op == 'add' else sub)(x[2], b)
        if y and not x: return (y[0], y[1], add(a, y[2])) if d.op == 'add' else (-y[0], y[1], sub(a, y[2]))
    return None

def lt(a, b): return _pred('lt0', sub(a, b))
def le(a, b): return _pred('le0', sub(a, b))
def eq(a, b):
    if is_bool(a) and is_bool(b):
        return not_(_mk('xor', (a, b)))
    return _pred('eq0', sub(a, b)) if a is not b or a.op in ('const',) else TRUE

def and_(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    if a is b: return a
    return _mk('and', (a, b))

def or_(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE or b is TRUE: return TRUE
    if a is b: return a
    return _mk('or', (a, b))

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,))

def isnan(a):
    if isnum(a): return FALSE
    if a is NAN: return TRUE
    return _mk('isnan', (a,))

def isfinite(a):
    if isnum(a): return TRUE
    if a.op == 'const': return FALSE
    return _mk('isfinite', (a,))

def isinf(a):
    if isnum(a): return FALSE
    return _mk('isinf', (a,))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    return _mk('ite', (c, a, b))

def let(binds, body):
    """simultaneous substitution {var: term} in body (lazy)."""
    bs = [(v, t) for v, t in binds.items() if v in body.fv and v is not t]
    if not bs:
        return body
    if body.op == 'var':
        return next((t for v, t in bs if v is body), body)
    if body.op == 'let' :
        pass
    bs.sort(key=lambda x: x[0].id)
    vs = frozenset(v for v, _ in bs)
    args = [body]
    for v, t in bs:
        args += [v, t]
    k = _mk('let', tuple(args))
    fv = body.fv - vs
    for _, t in bs:
        fv = fv | t.fv
    k.fv = fv
    return k

def red(name, space, v, body):
    """reduction over variable v ranging over space."""
    if name == 'sum' and v not in body.fv:
        return mul(length(space), body)
    op = 'bred' if name in ('any', 'all') else 'red'
    t = _mk(op, (name, v, body))
    t.fv = (body.fv - {v}) | (v.fv - {v})
    return t

def case(idx, parts):
    """parts: list of (var, body) per part of the Concat space idx points into."""
    if len(parts) >= 1 and all(b is parts[0][1] for v, b in parts) and not any(v in parts[0][1].fv for v, b in parts):
        return parts[0][1]
    if idx.op == 'inj':
        v, b = parts[idx.args[1]]
        return let({v: idx.args[2]}, b)
    args = [idx]
    for v, b in parts:
        args += [v, b]
    t = _mk('case', tuple(args))
    fv = idx.fv
    for v, b in parts:
        fv = fv | (b.fv - {v})
    t.fv = fv
    return t

def sel(idx, cells):
    if all(c is cells[0] for c in cells): return cells[0]
    if isnum(idx): return cells[int(idx.args[0])]
    return _mk('sel', (idx,) + tuple(cells))

def up(F, k, a):
    if a.op == 'down' and a.args[0] is F:
        if len(F.parents) == 1: return a.args[1]
        if a.args[1].op == 'pair': return a.args[1].args[1 + k]
    return _mk('up', (F, k, a))

def down(F, a):
    if a.op == 'up' and a.args[0] is F and len(F.parents) == 1:
        return a.args[2]
    return _mk('down', (F, a))

def inj(S, i, a): return _mk('inj', (S, i, a))          # point of part i as point of the Concat S
def pair(S, items): return _mk('pair', (S,) + tuple(items))
def proj(k, a, S):
    if a.op == 'pair': return a.args[1 + k]
    return _mk('proj', (k, S, a))

def idx(v):
    if v.op == 'var' and isinstance(v.args[0], Space) and v.args[0].kind == 'range': return v      # its points are the numbers 0, 1, ...
    return _mk('idx', (v,))

def nth(space, t):
    """the t-th point of a space, counted from the end when negative"""
    if space.kind == 'range': return add(space.info, t) if isnum(t) and t.args[0] < 0 else t
    return iatom('nth%d' % space.uid, t)

def length(space):
    if not isinstance(space, Space): return num(space)
    if space.kind == 'range': return space.info
    if space.kind == 'concat':
        r = ZERO
        for p in space.parents: r = add(r, length(p))
        return r
    if space.kind == 'prod':
        r = ONE
        for p in space.parents: r = mul(r, length(p))
        return r
    if space.kind == 'perm': return length(space.parents[0])
    return _mk('len', (space,))

def tens(vs, cells):
    t = _mk('tens', (len(vs),) + tuple(vs) + tuple(cells))
    t.fv = t.fv - frozenset(vs)
    return t

# ----------------------------------------------------------------------------- evaluation
class P(tuple):
    __slots__ = ()

def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')

_hc = {}
def _h64(a):
    v = _hc.get(a)
    if v is None:
        v = _hc[a] = _h(a)
    return v

def _u(*a):
    return _h64(a) / 2.0 ** 64

NANV = complex('nan')
INFV = complex('inf')

def _r(x):
    if x != x: return 'nan'
    if isinstance(x, complex):
        return (_r1(x.real), _r1(x.imag))
    return (_r1(x), 0.0)

def _r1(x):
    if x != x: return 'nan'
    if math.isinf(x): return 'inf' if x > 0 else '-inf'
    if abs(x) < 1e-11: return 0.0
    return float('%.7g' % x)

def _key(v):
    if isinstance(v, P): return v
    if isinstance(v, bool): return v
    if isinstance(v, tuple): return tuple(_r(x) for x in v)
    return v

def _csafe(f):
    def g(x):
        try:
            return complex(f(x))
        except (OverflowError, ValueError, ZeroDivisionError):
            return NANV
    return g

def _abs(x):
    if abs(x.imag) < 1e-12 * (1 + abs(x.real)): return complex(abs(x.real))
    return cmath.sqrt(x * x)

def _real(x):
    return abs(x.imag) < 1e-9 * (1 + abs(x.real))

_CF = {'sin': _csafe(cmath.sin), 'cos': _csafe(cmath.cos), 'tan': _csafe(cmath.tan), 'exp': _csafe(cmath.exp),
       'sqrt': _csafe(cmath.sqrt), 'arccos': _csafe(cmath.acos), 'arcsin': _csafe(cmath.asin), 'arctan': _csafe(cmath.atan),
       'log': _csafe(cmath.log), 'abs': _csafe(_abs), 'sinh': _csafe(cmath.sinh), 'cosh': _csafe(cmath.cosh), 'tanh': _csafe(cmath.tanh)}

def _div(x, y):
    if y == 0: return NANV
    try:
        return x / y
    except OverflowError:
        return NANV

def _pow(x, y):
    try:
        if y.imag == 0 and y.real == int(y.real) and abs(y.real) <= 12:
            n = int(y.real)
            r = complex(1)
            for _ in range(abs(n)): r = r * x
            return r if n >= 0 else _div(complex(1), r)
        if x == 0: return complex(0)
        return cmath.exp(y * cmath.log(x))
    except (OverflowError, ValueError, ZeroDivisionError):
        return NANV

class Lane:
    ns = NSUB
    forced = None
    raw = None; pint = False
    record = None      # set of canonical predicate quantities met (when recording)

    total = False     # predicates of quantities that are numbers for all numbers given: never nan, never infinite

    def __init__(self, n):
        self.n = n
        self.generic = n < N_GENERIC or n >= N_ALL
        self.memo = {}
        self.factmemo = {}
        self.depth = 0

    # -- points
    def npts(self, space):
        return 2 + _h64(('np', space.key, self.n)) % 3

    def points(self, space):
        if isinstance(space, int): return list(range(space))
        if space.kind == 'concat':
            return [P(('c', i, q)) for i, p in enumerate(space.parents) for q in self.points(p)]
        if space.kind == 'prod':
            out = [()]
            for p in space.parents:
                out = [o + (q,) for o in out for q in self.points(p)]
            return [P(('p',) + o) for o in out]
        if space.kind == 'perm':
            return [P(('perm', q)) for q in self.points(space.parents[0])]
        return [P(('s', space.uid, k)) for k in range(self.npts(space))]

    def point(self, space, k=0, salt=0):
        if isinstance(space, int): return _h64(('gi', space, k, self.n)) % space
        if space.kind == 'concat':
            i = (self.n + k) % len(space.parents)
            return P(('c', i, self.point(space.parents[i], k)))
        if space.kind == 'prod':
            return P(('p',) + tuple(self.point(p, k + j * 17) for j, p in enumerate(space.parents)))
        if space.kind == 'perm':
            return P(('perm', self.point(space.parents[0], k)))
        return P(('g', space.uid, k))

    # -- evaluation
    def ev(self, t, env):
        fv = t.fv
        if not fv:
            key = (t.id, None)
        elif len(fv) == 1:
            v, = fv
            key = (t.id, env.get(v.id))
        else:
            key = (t.id, tuple(env.get(i) for i in sorted(v.id for v in fv)))
        m = self.memo
        r = m.get(key)
        if r is None:
            r = getattr(self, 'e_' + t.op)(t, env)
            m[key] = r
        return r

    def nv(self, t, env):
        """numeric value: tuple of self.ns complex"""
        v = self.ev(t, env)
        return self.tonum(v)

    def tonum(self, v):
        if isinstance(v, P):
            return tuple(complex(0.3 + 5 * _u('pn', v, self.n, s)) for s in range(self.ns))
        if v is True: return (complex(1),) * self.ns
        if v is False: return (complex(0),) * self.ns
        if isinstance(v, int): return (complex(v),) * self.ns
        return v

    def bv(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool): return v
        if isinstance(v, tuple) and not isinstance(v, P):   # numeric used as boolean
            return self._state_pred('ne', v, ())
        return bool(_h64(('b', v, self.n)) & 1)

    def e_num(self, t, env): return (complex(t.args[0]),) * self.ns
    def e_const(self, t, env): return ((NANV if t.args[0] == 'nan' else INFV),) * self.ns
    def e_true(self, t, env): return True
    def e_false(self, t, env): return False

    def e_var(self, t, env):
        p = env.get(t.id)
        if p is None:
            p = self.point(t.args[0], t.args[1])
        return p

    def e_atom(self, t, env):
        ks = tuple(_key(self.ev(a, env)) if isinstance(a, Term) else a for a in t.args[2:])
        out = []
        for s in range(self.ns):
            x = 0.3 + 1.4 * _u('a', t.args[0], ks, self.n, s)
            if not t.args[1] and _h64(('sg', t.args[0], ks, self.n, s)) & 1: x = -x
            out.append(complex(x))
        return tuple(out)

    def e_iatom(self, t, env):
        return P(('ia', t.args[0]) + tuple(_key(self.ev(a, env)) if isinstance(a, Term) else a for a in t.args[1:]))

    def e_choice(self, t, env):
        ks = tuple(_key(self.ev(a, env)) if isinstance(a, Term) else a for a in t.args[2:])
        return (complex(_h64(('ch', t.args[0], ks, self.n)) % t.args[1]),) * self.ns

    def e_batom(self, t, env):
        ks = tuple(_key(self.ev(a, env)) if isinstance(a, Term) else a for a in t.args[1:])
        return bool(_h64(('ba', t.args[0], ks, self.n)) & 1)

    def e_u(self, t, env):
        ks = tuple(_key(self.ev(a, env)) if isinstance(a, Term) else (a.uid if isinstance(a, Space) else a) for a in t.args[1:])
        return self.hashnum(('u', t.args[0], ks))

    def hashnum(self, k):
        return tuple(complex(0.3 + 1.4 * _u(k, self.n, s)) for s in range(self.ns))

    def e_add(self, t, env):
        a, b = self.nv(t.args[0], env), self.nv(t.args[1], env)
        return tuple(x + y for x, y in zip(a, b))

    def e_sub(self, t, env):
        a, b = self.nv(t.args[0], env), self.nv(t.args[1], env)
        r = []
        for x, y in zip(a, b):
            d = x - y
            try:
                if abs(d) < 1e-12 * (abs(x) + abs(y)): d = complex(0)
            except OverflowError: d = NANV
            r.append(d)
        return tuple(r)

    def e_neg(self, t, env): return tuple(-x for x in self.nv(t.args[0], env))

    def e_mul(self, t, env):
        a, b = self.nv(t.args[0], env), self.nv(t.args[1], env)
        return tuple(x * y for x, y in zip(a, b))

    def e_div(self, t, env):
        a, b = self.nv(t.args[0], env), self.nv(t.args[1], env)
        return tuple(_div(x, y) for x, y in zip(a, b))

    def e_pow(self, t, env):
        a, b = self.nv(t.args[0], env), self.nv(t.args[1], env)
        return tuple(_pow(x, y) for x, y in zip(a, b))

    def e_fn(self, t, env):
        name = t.args[0]
        f = _CF.get(name)
        if f is not None and len(t.args) == 2:
            return tuple(f(x) for x in self.nv(t.args[1], env))
        ks = tuple(_key(self.nv(a, env)) for a in t.args[1:])
        if len(ks) == 1 and name in ('floor', 'ceil', 'round', 'trunc'):
            # integer-part functions: consistent on integers, uninterpreted elsewhere
            v = self.nv(t.args[1], env)
            if all(_real(x) and abs(x.real - round(x.real)) < 1e-9 for x in v): return tuple(complex(round(x.real)) for x in v)
        return tuple(complex(math.floor(1 + 1000 * _u('fn', name, tuple(k[s] if isinstance(k, tuple) else k for k in ks), self.n)) if name in _INTOPS else
                             0.3 + 1.4 * _u('fn', name, tuple(k[s] if isinstance(k, tuple) else k for k in ks), self.n)) for s in range(self.ns))

    def e_let(self, t, env):
        e2 = dict(env)
        for i in range(1, len(t.args), 2):
            e2[t.args[i].id] = self.ev(t.args[i + 1], env)
        return self.ev(t.args[0], self._restrict(t.args[0], e2))

    def _restrict(self, body, e):
        return {v.id: e[v.id] for v in body.fv if v.id in e}

    def e_ite(self, t, env):
        if self.record is not None:
            self.ev(t.args[1], env); self.ev(t.args[2], env)
        return self.ev(t.args[1] if self.bv(t.args[0], env) else t.args[2], env)

    def e_red(self, t, env):
        name, v, body = t.args
        sp = v.args[0]
        vals = []
        for p in self.points(sp):
            e2 = dict(env); e2[v.id] = p
            vals.append(self.ev(body, self._restrict(body, e2)))
        if name == 'sum':
            vals = [self.tonum(x) for x in vals]
            return tuple(sum((x[s] for x in vals), complex(0)) for s in range(self.ns))
        if name == 'prod':
            vals = [self.tonum(x) for x in vals]
            out = []
            for s in range(self.ns):
                r = complex(1)
                for x in vals: r *= x[s]
                out.append(r)
            return tuple(out)
        if name in ('max', 'min') :
            vals = [self.tonum(x) for x in vals]
            if all(_real(x[s]) for x in vals for s in range(self.ns)):
                f = max if name == 'max' else min
                return tuple(complex(f(x[s].real for x in vals)) for s in range(self.ns))
        return self.hashnum(('red', name, sp.uid, tuple(sorted(repr(_key(x)) for x in vals)) if name in ('max', 'min') else tuple(_key(x) for x in vals)))

    def e_bred(self, t, env):
        name, v, body = t.args
        rs = []
        for p in self.points(v.args[0]):
            e2 = dict(env); e2[v.id] = p
            rs.append(self.bv(body, self._restrict(body, e2)))
        return any(rs) if name == 'any' else all(rs)

    def e_case(self, t, env):
        p = self.ev(t.args[0], env)
        n = (len(t.args) - 1) // 2
        if not (isinstance(p, P) and p and p[0] == 'c'):
            i = (_h64(('cp', p)) + self.n) % n
            p = P(('c', i, P(('in', i, p))))
        v, body = t.args[1 + 2 * p[1]], t.args[2 + 2 * p[1]]
        e2 = dict(env); e2[v.id] = p[2]
        return self.ev(body, self._restrict(body, e2))

    def e_sel(self, t, env):
        p = self.ev(t.args[0], env)
        n = len(t.args) - 1
        if isinstance(p, tuple) and not isinstance(p, P):
            if all(_real(x) and abs(x.real - round(x.real)) < 1e-9 and 0 <= round(x.real) < n for x in p):
                p = int(round(p[0].real))
            else:
                p = _h64(('si', _key(p), self.n)) % n
        elif not isinstance(p, int):
            p = _h64(('si', p, self.n)) % n
        return self.ev(t.args[1 + p], env)

    def e_up(self, t, env):
        F, k, a = t.args
        q = self.ev(a, env)
        if F.kind == 'perm':
            return q[1] if isinstance(q, P) and q[0] == 'perm' else P(('upx', F.uid, q))
        if isinstance(q, P) and q and q[0] == 'down' and q[1] == F.uid:
            if len(F.parents) == 1: return q[2]
            if isinstance(q[2], P) and q[2][0] == 'p': return q[2][1 + k]
        return P(('up', F.uid, k, q))

    def e_down(self, t, env):
        F = t.args[0]
        q = self.ev(t.args[1], env)
        if isinstance(q, P) and q:
            if q[0] == 'up' and q[1] == F.uid and len(F.parents) == 1: return q[3]
            if q[0] == 'p' and len(q) == 1 + len(F.parents) > 2 and all(isinstance(x, P) and x[0] == 'up' and x[1] == F.uid and x[2] == k and x[3] == q[1][3] for k, x in enumerate(q[1:])): return q[1][3]
        if F.kind == 'perm': return P(('perm', q))
        return P(('down', F.uid, q))

    def e_pair(self, t, env):
        return P(('p',) + tuple(self._pt(self.ev(a, env)) for a in t.args[1:]))

    def e_inj(self, t, env): return P(('c', t.args[1], self._pt(self.ev(t.args[2], env))))

    def _pt(self, v):
        if isinstance(v, tuple) and not isinstance(v, P):
            if all(_real(x) and abs(x.real - round(x.real)) < 1e-9 for x in v): return int(round(v[0].real))
            return P(('n', _key(v)))
        return v

    def e_proj(self, t, env):
        k, S, a = t.args
        q = self.ev(a, env)
        if isinstance(q, P) and q and q[0] == 'p': return q[1 + k]
        part = S.parents[k]
        if isinstance(part, int): return _h64(('pj', k, q, self.n)) % part
        return P(('pj', k, q))

    def e_idx(self, t, env):
        p = self.ev(t.args[0], env)
        if isinstance(p, int): return (complex(p),) * self.ns
        return tuple(complex(_h64(('ix', p, self.n, s)) % 1000) for s in range(self.ns))

    def e_len(self, t, env): return (complex(self.npts(t.args[0])),) * self.ns

    def e_tens(self, t, env):
        n = t.args[0]
        vs = t.args[1:1 + n]; cells = t.args[1 + n:]
        envs = [dict(env)]
        for v in vs:
            nx = []
            for e in envs:
                for p in self.points(v.args[0]):
                    e2 = dict(e); e2[v.id] = p; nx.append(e2)
            envs = nx
        h = tuple(tuple(_key(self.ev(c, self._restrict(c, e))) for c in cells) for e in envs)
        return self.hashnum(('T', h))

    # -- booleans
    def e_and(self, t, env):
        a = self.bv(t.args[0], env)
        if self.record is not None: self.bv(t.args[1], env)
        return a and self.bv(t.args[1], env)

    def e_or(self, t, env):
        a = self.bv(t.args[0], env)
        if self.record is not None: self.bv(t.args[1], env)
        return a or self.bv(t.args[1], env)

    def e_not(self, t, env): return not self.bv(t.args[0], env)
    def e_xor(self, t, env): return self.bv(t.args[0], env) != self.bv(t.args[1], env)

    def _canon(self, v):
        """canonical predicate quantity -> (key, sign) or ('k', truth state) for constants"""
        if any(x != x for x in v): return None, 'nan'
        if all(abs(x) < 1e-11 for x in v): return None, 'zero'
        if all(math.isinf(x.real) for x in v): return None, 'pos' if v[0].real > 0 else 'neg'
        if all(abs(x - v[0]) < 1e-11 * (1 + abs(x)) for x in v) and _real(v[0]):
            # constant over random interpretations: a genuine constant
            return None, 'pos' if v[0].real > 0 else 'neg'
        if all(_real(x) for x in v) and v[0] != 0:
            sc = abs(v[0].real)
            sg = 1 if v[0].real > 0 else -1
            return tuple(_r1(sg * x.real / sc) for x in v), sg
        return tuple(_r(x) for x in v), 1

    def _facts(self, env, fv):
        """allowed-state restrictions implied by filter membership of the points in env"""
        out = {}
        seen = []
        def walk(p):
            if isinstance(p, P):
                if p and p[0] == 'up':
                    seen.append((p[1], p[3]))
                for q in p:
                    if isinstance(q, P): walk(q)
        for v in fv:
            p = env.get(v.id)
            if p is not None: walk(p)
        for uid, q in seen:
            for k, s in self._filter_facts(uid, q).items():
                out[k] = out.get(k, _ALLST) & s
        return out

    def _filter_facts(self, uid, q):
        key = (uid, q)
        r = self.factmemo.get(key)
        if r is not None: return r
        self.factmemo[key] = {}          # cut recursion
        F = _by_uid(uid)
        out = {}
        if F is not None and F.mask is not None:
            env = {}
            for k, p in enumerate(F.parents):
                env[var(p, k if F.parents.index(p) != k else 0).id] = P(('up', uid, k, q))
            for lit, polar in _conj(F.mask, True):
                if lit.op in ('lt0', 'le0', 'eq0', 'isnan', 'isfinite', 'isinf'):
                    self.depth += 1
                    if self.depth < 40:
                        v = self.nv(lit.args[0], self._restrict(lit, env))
                        ck, sg = self._canon(v)
                        if ck is not None:
                            st = _STATES[lit.op, sg]
                            st = st if polar else _ALLST - st
                            out[ck] = out.get(ck, _ALLST) & st
                    self.depth -= 1
        self.factmemo[key] = out
        return out

    def _state(self, v, env, fv):
        ck, sg = self._canon(v)
        if ck is None: return sg, 1
        if self.record is not None:
            self.record.add(ck)
            if self.raw is not None: self.raw.setdefault(ck, (v, self.pint))
        allowed = _ALLST
        f = self._facts(env, fv) if env or self.forced else None
        if f and ck in f: allowed = f[ck]
        if self.generic and allowed & _GEN: allowed = allowed & _GEN
        if self.total and allowed & _REALST: allowed = allowed & _REALST
        al = sorted(allowed) or ['pos']
        return al[_h64(('st', ck, self.n)) % len(al)], sg

    def _state_pred(self, op, v, env, fv=()):
        st, sg = self._state(v, env if isinstance(env, dict) else {}, fv)
        if op == 'ne': return st != 'zero'
        return st in _STATES[op, sg]

    def _p(self, t, env):
        if self.raw is not None: self.pint = int_valued(t.args[0])
        return self._state_pred(t.op, self.nv(t.args[0], env), env, t.fv)

    e_lt0 = e_le0 = e_eq0 = e_isnan = e_isfinite = e_isinf = _p

class GLane(Lane):
    """Lane whose predicate states are chosen such that the conjuncts of `guard` hold."""
    def __init__(self, n, guard, total=False):
        Lane.__init__(self, n)
        self.total = total
        self.forced = {}
        self._force(guard, True, {})
        self.memo = {}

    def _force(self, t, polar, env):
        if t.op == 'not': return self._force(t.args[0], not polar, env)
        if t.op in ('and', 'or'):
            if (t.op == 'and') == polar: which = t.args
            else: which = (t.args[_h64(('side', t.id, self.n)) & 1],)      # one of the alternatives
            for a in which: self._force(a, polar, env)
            return
        if t.op == 'let':
            e2 = dict(env)
            for i in range(1, len(t.args), 2): e2[t.args[i].id] = self.ev(t.args[i + 1], env)
            return self._force(t.args[0], polar, self._restrict(t.args[0], e2))
        if t.op in ('lt0', 'le0', 'eq0', 'isnan', 'isfinite', 'isinf'):
            ck, sg = self._canon(self.nv(t.args[0], env))
            if ck is not None:
                st = _STATES[t.op, sg]
                self.forced[ck] = self.forced.get(ck, _ALLST) & (st if polar else _ALLST - st)

    def _facts(self, env, fv):
        f = Lane._facts(self, env, fv) if env else {}
        if not self.forced: return f
        out = dict(self.forced)
        for k, v in f.items(): out[k] = out.get(k, _ALLST) & v
        return out

_gl = {}
def guarded_lanes(guard, lo, hi, total=False):
    for n in range(lo, hi):
        ln = _gl.get((guard.id, n, total))
        if ln is None:
            if len(_gl) > 4000: _gl.clear()
            ln = GLane(n, guard, total)
            if not ln.bv(guard, {}): ln = False
            _gl[guard.id, n, total] = ln
        if ln: yield ln

_ALLST = frozenset(('neg', 'zero', 'pos', 'nan', 'inf'))
_GEN = frozenset(('neg', 'pos'))
_REALST = frozenset(('neg', 'zero', 'pos'))
_STATES = {('lt0', 1): frozenset(('neg',)), ('lt0', -1): frozenset(('pos', 'inf')),
           ('le0', 1): frozenset(('neg', 'zero')), ('le0', -1): frozenset(('pos', 'zero', 'inf')),
           ('eq0', 1): frozenset(('zero',)), ('eq0', -1): frozenset(('zero',)),
           ('isnan', 1): frozenset(('nan',)), ('isnan', -1): frozenset(('nan',)),
           ('isfinite', 1): frozenset(('neg', 'zero', 'pos')), ('isfinite', -1): frozenset(('neg', 'zero', 'pos')),
           ('isinf', 1): frozenset(('inf',)), ('isinf', -1): frozenset(('inf',))}

def _conj(t, polar):
    if t.op == 'not': yield from _conj(t.args[0], not polar)
    elif t.op == 'and' and polar:
        yield from _conj(t.args[0], True); yield from _conj(t.args[1], True)
    elif t.op == 'or' and not polar:
        yield from _conj(t.args[0], False); yield from _conj(t.args[1], False)
    else: yield t, polar

_uidtab = {}
def _by_uid(uid):
    s = _uidtab.get(uid)
    if s is None:
        for s2 in Space._tab.values(): _uidtab[s2.uid] = s2
        s = _uidtab.get(uid)
    return s

_lanes = [Lane(i) for i in range(N_ALL)]
_rlanes = [Lane(i) for i in range(N_ALL)]
for _l in _rlanes: _l.total = True

def _close(a, b):
    if a != a and b != b: return True
    if a == b: return True
    if cmath.isinf(a) or cmath.isinf(b): return cmath.isinf(a) and cmath.isinf(b) and _real(a) and _real(b) and a.real == b.real
    try:
        return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-11
    except OverflowError:
        return False

_xlanes = [Lane(N_ALL + i) for i in range(30)]      # further generic lanes, used on demand

def _nonreal(x): return x == x and not _real(x)

def equal(a, b, env=None):
    """same value number?  Real/index terms on generic lanes, boolean terms on all lanes.
    Interpretations in which both values leave the reals (square root of a negative number ...)
    correspond to no defined program value and are left out when enough real ones exist."""
    return a is b or differs(a, b) is None

_TOTAL = frozenset(('num', 'atom', 'add', 'sub', 'neg', 'mul', 'let', 'var', 'up', 'down', 'sel', 'pair', 'proj', 'inj', 'idx', 'len', 'iatom', 'tens', 'case', 'ite',
                    'and', 'or', 'not', 'xor', 'true', 'false', 'lt0', 'le0', 'eq0', 'bred', 'batom'))
_totalmemo = {}
def total(t):
    """every quantity t compares is a number for all numbers given (sums and products of inputs)"""
    r = _totalmemo.get(t.id)
    if r is None:
        r = _totalmemo[t.id] = all(x.op in _TOTAL or x.op == 'red' and x.args[0] in ('sum', 'max', 'min') or x.op == 'fn' and x.args[0] in ('abs', 'cos', 'sin') for x in walk(t))
    return r

def differs(a, b, guard=None, degenerate=False):
    """None when a and b have the same value number, else the first lane that tells them apart.
    guard: boolean term; lanes where it is false are skipped."""
    if a is b: return None
    if guard is TRUE: guard = None
    if is_bool(a) and is_bool(b):
        seen = [0, 0]
        fin = total(a) and total(b)
        for ln in ((_rlanes if fin else _lanes) if guard is None else guarded_lanes(guard, 0, N_ALL, fin)):
            va = ln.bv(a, {})
            if va != ln.bv(b, {}): return ln
            seen[bool(va)] += 1
        for side in (0, 1):        # a truth value that hardly occurs: look at interpretations made to give it
            if seen[side] >= 4: continue
            for x, y in ((a, b), (b, a)):
                g = x if side else not_(x)
                g = g if guard is None else and_(guard, g)
                if g in (TRUE, FALSE): continue
                for ln in guarded_lanes(g, 0, 24, fin):
                    if bool(ln.bv(y, {})) != bool(side): return ln
        return None
    real = 0; bad = None
    def lane(ln):
        nonlocal real, bad
        va, vb = ln.ev(a, {}), ln.ev(b, {})
        if isinstance(va, P) and isinstance(vb, P):
            real += 1
            return ln if va != vb else None
        va, vb = ln.tonum(va), ln.tonum(vb)
        for x, y in zip(va, vb):
            if _nonreal(x) and _nonreal(y):
                if bad is None and not _close(x, y): bad = ln
                continue
            if (x != x) != (y != y) and (_nonreal(x) or _nonreal(y)): continue
            if not _close(x, y): return ln
            real += 1
        return None
    top = N_ALL if degenerate else N_GENERIC
    for ln in (_lanes[:top] if guard is None else guarded_lanes(guard, 0, top)):
        r = lane(ln)
        if r is not None: return r
    if real >= 4 and bad is None: return None
    for ln in (_xlanes if guard is None else guarded_lanes(guard, N_ALL, N_ALL + 30)):
        if real >= 6: return None
        r = lane(ln)
        if r is not None: return r
    return bad if real < 3 else None

def implies(a, b):
    return all((not ln.bv(a, {})) or ln.bv(b, {}) for ln in _lanes)

def always(a):
    return all(ln.bv(a, {}) for ln in _lanes)

def values(a, n=2):
    return [_lanes[i].ev(a, {}) for i in range(n)]

# ----------------------------------------------------------------------------- inspection
def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, Term): st.append(a)

def unk_reasons(t):
    return sorted({x.args[0] for x in walk(t) if x.op == 'u' and x.args and isinstance(x.args[0], str) and x.args[0].startswith('?')})

def depends(t, pred):
    return any(pred(x) for x in walk(t))

def show(t, d=6):
    if not isinstance(t, Term): return repr(t)
    if d == 0: return '..'
    o = t.op
    if o == 'num':
        v = t.args[0]; return '%g' % v if not isinstance(v, complex) else str(v)
    if o == 'const': return t.args[0]
    if o in ('true', 'false'): return o
    if o == 'var': return '%s.%d' % (t.args[0], t.args[1])
    s = lambda x: show(x, d - 1)
    if o in ('add', 'sub', 'mul', 'div', 'pow'):
        return '(%s%s%s)' % (s(t.args[0]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '^'}[o], s(t.args[1]))
    if o == 'atom': return '%s[%s]' % (t.args[0], ','.join(s(a) for a in t.args[2:]))
    if o == 'let': return '%s{%s}' % (s(t.args[0]), ','.join('%s:=%s' % (s(t.args[i]), s(t.args[i + 1])) for i in range(1, len(t.args), 2)))
    return '%s(%s)' % (o, ','.join(s(a) if isinstance(a, Term) else str(a) for a in t.args))

# ----------------------------------------------------------------------------- concrete interpretation
class CLane(Lane):
    """One real-valued interpretation: atoms are real numbers on a random segment, and predicates
    take the truth value these numbers give them (instead of a free abstract state)."""
    ns = 1

    def __init__(self, seed, s=0.0):
        Lane.__init__(self, seed + 1000)
        self.s = s
        self.mode = seed % 3

    def _draw(self, end, name, pos, ks):
        u = _u('ca', end, name, ks, self.n)
        if self.mode == 1: x = 10.0 ** (-6 + 8 * u)
        elif self.mode == 2: x = 0.02 + 2.5 * u * u
        else: x = 0.3 + 1.4 * u
        if not pos and _h64(('csg', end, name, ks, self.n)) & 1: x = -x
        return x

    def e_atom(self, t, env):
        ks = tuple(_key(self.ev(a, env)) if isinstance(a, Term) else a for a in t.args[2:])
        a = self._draw(0, t.args[0], t.args[1], ks)
        if self.s:
            b = self._draw(1, t.args[0], t.args[1], ks)
            if a * b > 0 and self.mode == 1: a = math.copysign(abs(a) ** (1 - self.s) * abs(b) ** self.s, a)
            else: a = (1 - self.s) * a + self.s * b
        return (complex(a),)

    def e_fn(self, t, env):
        name = t.args[0]
        vs = [self.nv(a, env)[0] for a in t.args[1:]]
        if name not in _CF and all(x == x and _real(x) for x in vs):
            xs = [x.real for x in vs]
            try:
                if name in ('floor', 'ceil', 'round', 'trunc') and len(xs) == 1: return (complex(_F[name](xs[0])),)
                if name == 'atan2': return (complex(math.atan2(*xs)),)
            except (ValueError, OverflowError):
                return (NANV,)
        return Lane.e_fn(self, t, env)

    def _state(self, v, env, fv):
        x = v[0]
        if x != x or not _real(x): return 'nan', 1
        if math.isinf(x.real): return ('pos' if x.real > 0 else 'neg'), 1
        if abs(x) < 1e-13: return 'zero', 1
        return ('pos' if x.real > 0 else 'neg'), 1

    def _state_pred(self, op, v, env, fv=()):
        x = v[0]
        if op in ('isinf', 'isfinite'):
            return (x == x and math.isinf(x.real)) == (op == 'isinf') and (x == x)
        return Lane._state_pred(self, op, v, env, fv)

def _mismatch(ln, a, b, guard):
    if guard is not None and not ln.bv(guard, {}): return None
    if is_bool(a) and is_bool(b):
        return ln.bv(a, {}) != ln.bv(b, {})
    va, vb = ln.ev(a, {}), ln.ev(b, {})
    if isinstance(va, P) and isinstance(vb, P): return va != vb
    x, y = ln.tonum(va)[0], ln.tonum(vb)[0]
    if _nonreal(x) or _nonreal(y): return None
    if x != x or y != y: return (x == x) != (y == y)
    if cmath.isinf(x) or cmath.isinf(y): return x.real != y.real
    return not (x == y or abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-12)

def _flip(a, seed, lo, hi, va):
    """bisect the place on the segment where boolean a changes"""
    for _ in range(18):
        m = (lo + hi) / 2
        if CLane(seed, m).bv(a, {}) == va: lo = m
        else: hi = m
    return lo, hi

def concretely_differ(a, b, guard=None, seeds=24, steps=6):
    """an interpretation with truthful predicates on which a and b differ, if one is found"""
    boolean = is_bool(a) and is_bool(b)
    for seed in range(seeds):
        prev = None
        for j in range(steps + 1):
            s = j / steps
            ln = CLane(seed, s)
            if _mismatch(ln, a, b, guard): return (seed, s)
            if boolean:
                cur = (ln.bv(a, {}), ln.bv(b, {}))
                if prev is not None and cur[0] != prev[1][0]:
                    for z in _flip(a, seed, prev[0], s, prev[1][0]):
                        if _mismatch(CLane(seed, z), a, b, guard): return (seed, z)
                prev = (s, cur)
    return None

class SLane(CLane):
    """A concrete interpretation with special values: zeros, ones, equal entries, spaces of one point."""
    def __init__(self, seed):
        CLane.__init__(self, seed); self.kind = seed % 8; self.mode = 0

    def npts(self, space):
        return 1 if self.kind == 4 else CLane.npts(self, space)

    def _draw(self, end, name, pos, ks):
        k = self.kind; fam = name.split('_q')[0].rstrip('0123456789_')
        if k in (3, 5) or k == 7 and _h64(('se', fam, self.n)) & 1: ks = ()      # all entries of a name are equal
        x = CLane._draw(self, end, name, pos, ks)
        u = _h64(('sp', name, () if k == 1 else ks, self.n)) % 8
        if k in (0, 1, 5) and u < 4: return x if pos else 0.0   # zeros, of single entries or of whole arrays
        if k in (6, 7) and _h64(('sz', fam, self.n)) & 1: return x if pos else 0.0     # families of arrays are zero
        if k in (2, 6): return (1.0, 2.0, 0.5)[u % 3] if pos else (0.0, 1.0, -1.0, 2.0)[u % 4]
        return x

def special_differ(a, b, guard=None, seeds=64):
    met = 0
    for seed in range(seeds if guard is None else 4 * seeds):
        if met >= seeds // 2 and guard is not None: break
        ln = SLane(seed)
        if guard is not None and not ln.bv(guard, {}): continue
        met += 1
        if is_bool(a) and is_bool(b):
            if ln.bv(a, {}) != ln.bv(b, {}): return seed
            continue
        va, vb = ln.ev(a, {}), ln.ev(b, {})
        if isinstance(va, P) or isinstance(vb, P): continue
        x, y = ln.tonum(va)[0], ln.tonum(vb)[0]
        if x != x or y != y or not _real(x) or not _real(y) or cmath.isinf(x) or cmath.isinf(y): continue
        if abs(x - y) > 1e-6 * max(abs(x), abs(y)) + 1e-9: return seed
    return None

_SIZEY = frozenset(('num', 'len', 'add', 'sub', 'neg', 'mul', 'div'))
_bulkmemo = {}
def compares_size(t):
    """t is a number of points measured against a constant no interpretation reaches"""
    r = _bulkmemo.get(t.id)
    if r is None:
        ops = set(); big = False
        for x in walk(t):
            ops.add(x.op)
            if x.op == 'num' and abs(complex(x.args[0])) >= 5: big = True
            if not ops <= _SIZEY: break
        r = _bulkmemo[t.id] = big and 'len' in ops and ops <= _SIZEY
    return r

def sizes_compared(t):
    return any(x.op in ('lt0', 'le0') and compares_size(x.args[0]) for x in walk(t))

class BulkLane(CLane):
    """A concrete interpretation in which every size is beyond every constant it is compared with."""
    def _p(self, t, env):
        if compares_size(t.args[0]): return self._state_pred(t.op, (complex(self.bulk(t.args[0])),), env, t.fv)
        return CLane._p(self, t, env)

    e_lt0 = e_le0 = e_eq0 = _p

    def bulk(self, t):
        if t.op == 'num': return float(t.args[0])
        if t.op == 'len': return 1e12 + _h64(('bulk', t.args[0].key, self.n)) % 1000000
        v = [self.bulk(a) for a in t.args]
        if t.op == 'neg': return -v[0]
        a, b = v
        return a + b if t.op == 'add' else a - b if t.op == 'sub' else a * b if t.op == 'mul' else a / b if b else NANV

def bulk_differ(a, b, guard=None, seeds=8):
    """an interpretation with many points of everything on which a and b differ"""
    for seed in range(seeds if guard is None else 4 * seeds):
        if _mismatch(BulkLane(seed, 0.0), a, b, guard): return seed
    return None

def branches(t):
    return any(x.op in ('eq0', 'lt0', 'le0', 'xor', 'isfinite', 'isnan') for x in walk(t))

def quantities(t, n, guard=None):
    """canonical predicate quantities of t on lane n"""
    ln = Lane(n) if guard is None else GLane(n, guard)
    ln.record = set()
    ln.ev(t, {})
    return ln.record

def threshold_moved(a, b, n, guard=None):
    """a and b branch on the same quantities except that some are compared with another constant"""
    def raw(t, m):
        ln = Lane(m) if guard is None else GLane(m, guard)
        ln.record = set(); ln.raw = {}
        ln.ev(t, {})
        return ln.raw
    ms = (n, N_ALL, N_ALL + 1)
    ra, rb = [raw(a, m) for m in ms], [raw(b, m) for m in ms]
    common = set(ra[0]) & set(rb[0])
    xa = [i for i in ra[0] if i not in common]; xb = [i for i in rb[0] if i not in common]
    if not xa or len(xa) != len(xb): return False
    used = set()
    for i in xb:
        for j in xa:
            if j in used: continue
            v, w = rb[0][i][0], ra[0][j][0]
            if rb[0][i][1] or ra[0][j][1]: continue
            if abs(v[1] - v[0]) < 1e-9: continue
            al = (w[1] - w[0]) / (v[1] - v[0]); be = w[0] - al * v[0]
            if abs(be) < 1e-9 * abs(w[0]) or not _close(w[2], al * v[2] + be) : continue
            if not all(any(all(_close(y, al * x + be) for x, y in zip(vb[0], va[0])) for va in ra[q].values()) for q in (1, 2) for vb in (list(rb[q].values())[list(rb[0]).index(i)],) if len(rb[q]) == len(rb[0])): continue
            used.add(j); break
        else: return False
    return True

_SOFT = frozenset(('floor', 'ceil', 'round', 'trunc', 'atan2', 'mod'))

def uninterpreted(t):
    """names of the functions of t that have no meaning of their own in an interpretation"""
    out = set()
    for x in walk(t):
        if x.op == 'fn' and (x.args[0] not in _CF or len(x.args) != 2): out.add(x.args[0])
        elif x.op == 'u' and any(isinstance(a, Term) for a in x.args[1:]): out.add(str(x.args[0]))
        elif x.op == 'red' and x.args[0] not in ('sum', 'prod', 'all', 'any', 'max', 'min'): out.add('red:' + str(x.args[0]))
    return out

_FALLBACK = frozenset(('in', 'is', 'isinst', 'truth', 'isnone', 'contiguous', 'is_integer', 'is_tensor'))
def fallback_facts(t):
    """boolean facts of t that stand for an operation without a model"""
    return {x for x in walk(t) if x.op == 'batom' and isinstance(x.args[0], str) and (x.args[0] in _FALLBACK or x.args[0].startswith(('cmp', 'str.')))}

PROVED, VIOLATED, UNDECIDED = 'proved', 'violated', 'undecided'

import os as _os
SHIFT = int(_os.environ.get('VERIF_SHIFT', '0'))
SINGLE = False      # every index space has exactly one point: what the code does with a single row of everything

class OneLane(CLane):
    """A concrete interpretation in which every space has one point."""
    def npts(self, space): return 1

    def canon(self, space):
        if isinstance(space, int) or space.kind == 'concat': return None
        if space.kind == 'prod':
            ps = [self.canon(p) for p in space.parents]
            return None if None in ps else P(('p',) + tuple(ps))
        if space.kind == 'perm':
            p = self.canon(space.parents[0]); return None if p is None else P(('perm', p))
        if space.kind == 'filter':
            ps = [self.canon(p) for p in space.parents]
            if None in ps: return P(('s', space.uid, 0))
            return P(('down', space.uid, ps[0] if len(ps) == 1 else P(('p',) + tuple(ps))))
        return P(('s', space.uid, 0))

    def points(self, space):
        p = self.canon(space)
        return CLane.points(self, space) if p is None else [p]

    def point(self, space, k=0, salt=0):
        p = self.canon(space)
        return CLane.point(self, space, k, salt) if p is None else p

    def e_iatom(self, t, env):
        m = _ofspace(t.args[0])
        if m:
            p = self.canon(_by_uid(int(m.group(1))))
            if p is not None: return p
        return CLane.e_iatom(self, t, env)

def decide_single(got, want, guard):
    if unk_reasons(got) or unk_reasons(want) or (guard is not None and unk_reasons(guard)): return UNDECIDED, 'imprecise'
    if uninterpreted(got) - uninterpreted(want) - _SOFT: return UNDECIDED, 'uses functions the specification does not name'
    if fallback_facts(got) - fallback_facts(want): return UNDECIDED, 'depends on a fact the analysis does not model'
    bad = []
    if got is not want:
        for seed in range(16 if guard is None else 64):
            ln = OneLane(seed + SHIFT, 0.0)
            if _mismatch(ln, got, want, guard) and _apart(ln, got, want): bad.append(seed)
            if len(bad) > 1: return VIOLATED, 'values differ for a single row (interpretation o%d)' % seed
    return (UNDECIDED, 'differs in one interpretation only') if bad else (PROVED, '')

def _apart(ln, a, b):
    """numbers differ by more than the rounding of an ill-conditioned expression"""
    if is_bool(a) or is_bool(b): return True
    va, vb = ln.ev(a, {}), ln.ev(b, {})
    if isinstance(va, P) or isinstance(vb, P): return True
    x, y = ln.tonum(va)[0], ln.tonum(vb)[0]
    if x != x or y != y or cmath.isinf(x) or cmath.isinf(y): return True
    return abs(x - y) > 1e-5 and abs(x - y) > 1e-3 * max(abs(x), abs(y))

def decide(got, want, guard=None, degenerate=False):
    """verdict on `got has the value number of want` (wherever guard holds).  degenerate: numeric terms
    are compared in the degenerate predicate states (equality, nan, inf) as well."""
    if SINGLE: return decide_single(got, want, guard)
    ln = differs(got, want, guard, degenerate)
    if ln is None:
        import os
        if got is not want and branches(got) and not uninterpreted(got) - uninterpreted(want) - _SOFT and not got.unk and not want.unk:
            s = special_differ(got, want, guard)
            if s is not None:
                if os.environ.get('SPDEBUG'): print('SPECIAL', s, show(got, 8)[:300], '|||', show(want, 8)[:300])
                return VIOLATED, 'values differ for special values (interpretation s%d)' % s
            if sizes_compared(got) and not sizes_compared(want):
                s = bulk_differ(got, want, guard)
                if s is not None: return VIOLATED, 'values differ for large numbers (interpretation b%d)' % s
        return PROVED, ''
    rs = set(unk_reasons(got)) | set(unk_reasons(want)) | (set(unk_reasons(guard)) if guard is not None else set())
    if rs: return UNDECIDED, 'imprecise: ' + '; '.join(sorted(rs))[:300]
    ug, uw = uninterpreted(got), uninterpreted(want)
    if ug - uw - _SOFT: return UNDECIDED, 'uses functions the specification does not name: ' + ', '.join(sorted(ug - uw - _SOFT))[:200]
    if (ug | uw) & _SOFT:
        # rounding functions are uninterpreted on the abstract lanes: only a difference of actual numbers counts
        c = concretely_differ(got, want, guard)
        if c is not None: return VIOLATED, 'values differ (interpretation %d at %.4g)' % c
        return UNDECIDED, 'differs in the use of a rounding function'
    bg, bw = fallback_facts(got), fallback_facts(want)
    if bg - bw: return UNDECIDED, 'depends on a fact the analysis does not model: ' + ', '.join(sorted(show(x, 4) for x in bg - bw))[:200]
    qg, qw = quantities(got, ln.n, guard), quantities(want, ln.n, guard)
    if guard is not None:
        q = quantities(guard, ln.n, guard)
        qg, qw = qg | q, qw | q
    if qg <= qw: return VIOLATED, 'values differ over the same predicates'
    c = concretely_differ(got, want, guard)
    if c is not None: return VIOLATED, 'values differ (interpretation %d at %.4g)' % c
    s = special_differ(got, want, guard)
    if s is not None: return VIOLATED, 'values differ for special values (interpretation s%d)' % s
    if sizes_compared(got) and not sizes_compared(want):
        s = bulk_differ(got, want, guard)
        if s is not None: return VIOLATED, 'values differ for large numbers (interpretation b%d)' % s
    if threshold_moved(got, want, ln.n, guard): return VIOLATED, 'a predicate uses another threshold'
    return UNDECIDED, 'decided by predicates the specification does not name'
