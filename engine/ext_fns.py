"""Models of torch / numpy tensor functions on abstract tensors."""
import math
import numpy as np
from . import terms as tm, vals as V
from .terms import Space
from .vals import *
from .ext_index import *

FN = {}          # name -> f(it, lib, args, kw)


def reg(*names):
    def d(f):
        for n in names: FN[n] = f
        return f
    return d


def arg(args, kw, i, *names, default=None):
    if i is not None and i < len(args): return args[i]
    for n in names:
        if n in kw: return kw[n]
    return default


def axis_of(it, args, kw, i, default=None):
    a = arg(args, kw, i, 'dim', 'axis', default=default)
    a = it.simp(a)
    if isinstance(a, (tuple, Lst)):
        l = it.iter_list(a)
        if l is None: raise Unsupported('axis')
        return tuple(int_of(it, x) for x in l)
    if a is None: return None
    r = int_of(it, a)
    if r is None: raise Unsupported('symbolic axis')
    return r


def flag(it, v):
    v = it.simp(v)
    if v is None: return False
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v)
    raise Unsupported('symbolic flag')


DT = {'float64': 'f64', 'double': 'f64', 'float': 'f64', 'float_': 'f64', 'float32': 'f32', 'single': 'f32', 'int64': 'i64', 'long': 'i64', 'int': 'i64', 'int_': 'i64',
      'int32': 'i32', 'intc': 'i32', 'bool': 'b', 'bool_': 'b', 'int16': 'i16', 'int8': 'i8', 'uint8': 'u8', 'float16': 'f16', 'half': 'f16', 'complex128': 'c128', 'bfloat16': 'bf16', 'uint16': 'u16', 'uint32': 'u32', 'longlong': 'i64'}
_DTV = {}

def dtv(name):
    r = _DTV.get(name)
    if r is None: r = _DTV[name] = Opq(tm.uf('dtype:' + name), 'dtype', name)
    return r


def dtype_name(it, v, lib='torch'):
    """canonical dtype name of a dtype argument (None -> None)"""
    v = it.simp(v)
    if v is None: return None
    if isinstance(v, Opq):
        if v.tag == 'dtype': return v.info
        n = 'sym:%d' % v.t.id
        return n
    if isinstance(v, Ext) and v.path.startswith('builtins.'):
        n = v.path[9:]
        if n in ('int', 'float', 'bool'): return {'int': 'i64', 'float': 'f64', 'bool': 'b'}[n]
    if isinstance(v, str) and v in DT: return DT[v]
    if isinstance(v, Phi): return 'phi:%d|%s|%s' % (v.c.id, dtype_name(it, v.a), dtype_name(it, v.b))
    raise Unsupported('dtype %r' % (v,))


INTS = ('i64', 'i32', 'i16', 'i8', 'u8', 'u16', 'u32')

def cast(td, dt):
    if dt is None or dt == td.dtype: return td
    if dt in INTS and td.dtype not in INTS and td.dtype != 'b': return td.repl(dtype=dt, cells=td.map(lambda c: tm.fn('trunc', c)))
    if dt == 'b' and td.dtype != 'b': return td.repl(dtype=dt, cells=td.map(lambda c: c if tm.is_bool(c) else tm.not_(tm._pred('eq0', c))))
    if td.dtype == 'b' and dt != 'b': return td.repl(dtype=dt, cells=td.map(b2n))
    return td.repl(dtype=dt)


def b2n(c):
    return tm.ite(c, tm.ONE, tm.ZERO) if tm.is_bool(c) else c


def TDa(it, v, lib):
    return it.to_td(v, lib)


def new(it, td, lib=None):
    return it.newT(td.repl(lib=lib or td.lib))


# ------------------------------------------------------------------ unary
def _unary(name, f, dt=None):
    def g(it, lib, args, kw):
        td = TDa(it, arg(args, kw, 0, 'input', 'x', 'a'), lib)
        if td.dtype == 'b' and dt != 'b': td = cast(td, 'i64')
        d = dt or (td.dtype if td.dtype not in INTS else 'f64')
        if dt == 'same': d = td.dtype
        if lib == 'numpy' and not isinstance(it.simp(args[0] if args else None), T) and td.ndim == 0:
            return it.newT(td.repl(cells=td.map(f), dtype=d, lib=lib))
        return it.newT(td.repl(cells=td.map(f), dtype=d, lib=lib))
    FN[name] = g

PI = tm.num(math.pi)
for _n in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'arccos', 'arcsin', 'arctan', 'log', 'sinh', 'cosh', 'tanh'):
    _unary(_n, (lambda nm: lambda c: tm.fn(nm, c))(_n))
for _a, _b in (('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan')): FN[_a] = FN[_b]
for _n in ('floor', 'ceil', 'trunc'): _unary(_n, (lambda nm: lambda c: tm.fn(nm, c))(_n), 'same')
FN['fix'] = FN['trunc']
_unary('abs', lambda c: tm.fn('abs', c), 'same'); FN['absolute'] = FN['fabs'] = FN['abs']
for _n in ('rad2deg', 'degrees'): _unary(_n, lambda c: tm.div(tm.mul(c, tm.num(180)), PI))
for _n in ('deg2rad', 'radians'): _unary(_n, lambda c: tm.div(tm.mul(c, PI), tm.num(180)))
for _n in ('square',): _unary(_n, lambda c: tm.mul(c, c), 'same')
for _n in ('negative', 'neg'): _unary(_n, tm.neg, 'same')
_unary('reciprocal', lambda c: tm.div(tm.ONE, c))
_unary('rsqrt', lambda c: tm.div(tm.ONE, tm.fn('sqrt', c)))
_unary('isnan', tm.isnan, 'b'); _unary('isfinite', tm.isfinite, 'b'); _unary('isinf', tm.isinf, 'b')
_unary('sign', lambda c: tm.ite(tm.lt(c, tm.ZERO), tm.num(-1), tm.ite(tm.lt(tm.ZERO, c), tm.ONE, tm.ZERO)), 'same')
FN['sgn'] = FN['sign']

@reg('logical_not', 'bitwise_not', 'invert')
def _(it, lib, args, kw):
    td = cast(TDa(it, args[0], lib), 'b'); return it.newT(td.repl(cells=td.map(tm.not_), lib=lib))

@reg('round', 'around', 'rint')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    d = arg(args, kw, 1, 'decimals', default=0); n = int_of(it, d)
    if n is None: raise Unsupported('decimals')
    f = (lambda c: tm.fn('round', c)) if n == 0 else (lambda c: tm.fn('roundd', c, tm.num(n)))
    return it.newT(td.repl(cells=td.map(f), lib=lib))

@reg('nan_to_num')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    nan = arg(args, kw, 1, 'nan', default=0.0)
    return it.newT(td.repl(cells=td.map(lambda c: tm.ite(tm.isnan(c), it.as_term(nan), c)), lib=lib))

# ------------------------------------------------------------------ binary
_BIN = {'add': 'Add', 'subtract': 'Sub', 'sub': 'Sub', 'multiply': 'Mult', 'mul': 'Mult', 'divide': 'Div', 'div': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'pow': 'Pow',
        'matmul': 'MatMult', 'mm': 'MatMult', 'bmm': 'MatMult', 'mv': 'MatMult', 'floor_divide': 'FloorDiv', 'remainder': 'Mod', 'mod': 'Mod',
        'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'bitwise_xor': 'BitXor'}

def liftarr(it, v, lib):
    """external functions convert python sequences and scalars to arrays"""
    v = it.simp(v)
    if isinstance(v, (Lst, tuple)): return it.newT(it.list_td(v, lib))
    if isinstance(v, Opq):
        r = it.x.opq_to_td(it, v)
        if r is not None: return it.newT(r.repl(lib=lib))
    return v

def _binary(name, op):
    def g(it, lib, args, kw):
        a = liftarr(it, arg(args, kw, 0, 'input', 'x1', 'a'), lib); b = liftarr(it, arg(args, kw, 1, 'other', 'x2', 'mat2', 'vec', 'exponent', 'b'), lib)
        al = kw.get('alpha')
        if al is not None: b = it.binop('Mult', b, al)
        if not isinstance(a, (T, Phi)) and not isinstance(b, (T, Phi)): a = it.newT(it.to_td(a, lib))
        r = it.binop(op, a, b)
        out = it.simp(kw.get('out'))
        if isinstance(out, T) and isinstance(it.simp(r), T):
            it.inplace(out, r, op, b); return out
        return r
    FN[name] = g
for _k, _v in _BIN.items(): _binary(_k, _v)

def _cmp(name, op):
    def g(it, lib, args, kw):
        a = liftarr(it, args[0], lib); b = liftarr(it, args[1], lib)
        if not isinstance(a, (T, Phi)) and not isinstance(b, (T, Phi)): a = it.newT(it.to_td(a, lib))
        return it.compare(op, a, b)
    for n in name: FN[n] = g
_cmp(('eq', 'equal_elem'), 'Eq'); _cmp(('ne', 'not_equal'), 'NotEq'); _cmp(('lt', 'less'), 'Lt'); _cmp(('le', 'less_equal'), 'LtE'); _cmp(('gt', 'greater'), 'Gt'); _cmp(('ge', 'greater_equal'), 'GtE')

def _logic(name, f):
    def g(it, lib, args, kw):
        a, b = cast(TDa(it, args[0], lib), 'b'), cast(TDa(it, args[1], lib), 'b')
        return it.newT(V.elementwise(f, a, b, dtype='b', lib=lib))
    FN[name] = g
_logic('logical_and', tm.and_); _logic('logical_or', tm.or_); _logic('logical_xor', lambda a, b: tm._mk('xor', (a, b)))

@reg('maximum', 'fmax')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    return it.newT(V.elementwise(V.tmax, a, b, lib=lib))

@reg('minimum', 'fmin')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    return it.newT(V.elementwise(V.tmin, a, b, lib=lib))

@reg('atan2', 'arctan2')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    return it.newT(V.elementwise(lambda x, y: tm.fn('atan2', x, y), a, b, lib=lib))

@reg('hypot')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    return it.newT(V.elementwise(lambda x, y: tm.fn('sqrt', tm.add(tm.mul(x, x), tm.mul(y, y))), a, b, lib=lib))

@reg('clamp', 'clip')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    lo = it.simp(arg(args, kw, 1, 'min', 'a_min')); hi = it.simp(arg(args, kw, 2, 'max', 'a_max'))
    if lo is not None: td = V.elementwise(V.tmax, td, TDa(it, lo, lib), dtype=td.dtype, lib=lib)
    if hi is not None: td = V.elementwise(V.tmin, td, TDa(it, hi, lib), dtype=td.dtype, lib=lib)
    return it.newT(td)

def _bigor(it, ts):
    pass

# ------------------------------------------------------------------ reductions
def _red(name, mode, dtf=None, pre=None):
    def g(it, lib, args, kw):
        x = arg(args, kw, 0, 'input', 'a')
        if isinstance(it.simp(x), Lst) and any(isinstance(i, Gen) for i in it.items(it.simp(x))) or True:
            td = TDa(it, x, lib)
        ax = axis_of(it, args, kw, 1)
        keep = flag(it, arg(args, kw, 2, 'keepdim', 'keepdims', default=False))
        if td.dtype == 'b' and mode in ('sum', 'prod', 'max', 'min'): td = cast(td, 'i64')
        if mode in ('any', 'all'): td = cast(td, 'b')
        r = V.reduce(td, mode, ax, keep)
        if dtf: r = r.repl(dtype=dtf)
        d = kw.get('dtype')
        if d is not None: r = cast(r, dtype_name(it, d))
        return it.newT(r.repl(lib=lib))
    FN[name] = g
_red('sum', 'sum'); _red('prod', 'prod'); _red('any', 'any', 'b'); _red('all', 'all', 'b'); _red('amax', 'max'); _red('amin', 'min'); _red('nansum0', 'sum')

@reg('nansum')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    td = td.repl(cells=td.map(lambda c: tm.ite(tm.isnan(c), tm.ZERO, c)))
    return FN['sum'](it, lib, [it.newT(td)] + list(args[1:]), kw)

@reg('count_nonzero')
def _(it, lib, args, kw):
    td = cast(TDa(it, args[0], lib), 'b')
    return FN['sum'](it, lib, [it.newT(td)] + list(args[1:]), kw)

@reg('mean', 'average')
def _(it, lib, args, kw):
    td = TDa(it, arg(args, kw, 0, 'input', 'a'), lib); ax = axis_of(it, args, kw, 1)
    if kw.get('weights') is not None: raise Unsupported('weighted average')
    keep = flag(it, arg(args, kw, 2, 'keepdim', 'keepdims', default=False))
    n = V.size(td, ax)
    r = V.reduce(td, 'sum', ax, keep)
    return it.newT(r.repl(cells=r.map(lambda c: tm.div(c, n)), lib=lib, dtype=td.dtype if td.dtype not in INTS else 'f64'))

@reg('norm', 'linalg.norm', 'linalg.vector_norm')
def _(it, lib, args, kw):
    td = TDa(it, arg(args, kw, 0, 'input', 'x', 'A'), lib)
    o = it.simp(arg(args, kw, 1, 'ord', 'p'))
    if o is not None and not (isinstance(o, (int, float)) and o == 2) and o != 'fro': raise Unsupported('norm order')
    ax = axis_of(it, args, kw, 2)
    keep = flag(it, arg(args, kw, 3, 'keepdim', 'keepdims', default=False))
    sq = td.repl(cells=td.map(lambda c: tm.mul(c, c)))
    r = V.reduce(sq, 'sum', ax, keep)
    return it.newT(r.repl(cells=r.map(lambda c: tm.fn('sqrt', c)), lib=lib, dtype='f64' if td.dtype in INTS else td.dtype))

def argext(td, axis, ismax):
    axis = V.norm_axis(axis, td.ndim)
    d = td.dims[axis]
    if isinstance(d, Space):
        v = td.axes[axis]
        cells = td.map(lambda c: tm.uf('argmax' if ismax else 'argmin', tm.tens([v], [c])))
        return V.squeeze_exact(td.repl(cells=cells), axis).repl(dtype='i64', root=None)
    parts = [np.take(td.cells, i, axis=axis) for i in range(d)]
    out = np.empty(np.shape(parts[0]), dtype=object)
    for i in np.ndindex(out.shape):
        xs = [np.asarray(p, dtype=object)[i] if np.ndim(p) else p for p in parts]
        best, bi = xs[0], tm.ZERO
        for k, x in enumerate(xs[1:], 1):
            c = tm.lt(best, x) if ismax else tm.lt(x, best)
            best = tm.ite(c, x, best); bi = tm.ite(c, tm.num(k), bi)
        out[i] = bi
    return TD(td.dims[:axis] + td.dims[axis + 1:], td.axes[:axis] + td.axes[axis + 1:], out, 'i64', td.lib)

@reg('argmax')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); ax = axis_of(it, args, kw, 1)
    if ax is None:
        if td.ndim != 1: raise Unsupported('argmax')
        ax = 0
    return it.newT(argext(td, ax, True).repl(lib=lib))

@reg('argmin')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); ax = axis_of(it, args, kw, 1)
    if ax is None:
        if td.ndim != 1: raise Unsupported('argmin')
        ax = 0
    return it.newT(argext(td, ax, False).repl(lib=lib))

def _maxmin(name, ismax):
    def g(it, lib, args, kw):
        x = arg(args, kw, 0, 'input', 'a')
        if len(args) > 1 and isinstance(it.simp(args[1]), T) and lib == 'torch': return FN['maximum' if ismax else 'minimum'](it, lib, args, kw)
        td = TDa(it, x, lib); ax = axis_of(it, args, kw, 1)
        keep = flag(it, arg(args, kw, 2, 'keepdim', 'keepdims', default=False))
        r = V.reduce(td, 'max' if ismax else 'min', ax, keep).repl(lib=lib)
        if ax is None or lib == 'numpy': return it.newT(r)
        i = argext(td, ax, ismax)
        if keep: i = V.expand(i, V.norm_axis(ax, td.ndim))
        return Opq(tm.uf('minmax'), 'minmax', (it.newT(r), it.newT(i)))
    FN[name] = g
_maxmin('max', True); _maxmin('min', False)

@reg('cumsum')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); ax = axis_of(it, args, kw, 1)
    if ax is None: ax = 0
    ax = V.norm_axis(ax, td.ndim)
    if isinstance(td.dims[ax], Space):
        v = td.axes[ax]
        return it.newT(td.repl(cells=td.map(lambda c: tm.uf('cumsum', tm.tens([v], [c]), v)), lib=lib, root=None))
    out = td.cells.copy()
    mv = np.moveaxis(out, ax, 0)
    for k in range(1, mv.shape[0]):
        for i in np.ndindex(mv.shape[1:]): mv[(k,) + i] = tm.add(mv[(k - 1,) + i], mv[(k,) + i])
    return it.newT(td.repl(cells=out, lib=lib, root=None))

# ------------------------------------------------------------------ linear algebra
@reg('dot', 'inner', 'vdot')
def _(it, lib, args, kw):
    a, b = liftarr(it, args[0], lib), liftarr(it, args[1], lib)
    def f(x, y):
        if not isinstance(x, T) or not isinstance(y, T): return it.binop('Mult', x, y)
        if it.td(x).ndim == 0 or it.td(y).ndim == 0: return it.binop('Mult', x, y)
        return it.binop('MatMult', x, y)
    return it.lift(f, a, b)

@reg('outer', 'ger')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    return it.newT(V.elementwise(tm.mul, V.expand(a, 1), V.expand(b, 0), lib=lib))

@reg('cross', 'linalg.cross')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    ax = axis_of(it, args, kw, 2, default=-1)
    dims, axes, cs = V.align(a, b)
    ax = V.norm_axis(ax, len(dims))
    if dims[ax] != 3: raise Conflict('cross product over dimension %s' % (dims[ax],))
    ca, cb = np.broadcast_arrays(*cs)
    ca, cb = np.moveaxis(ca, ax, 0), np.moveaxis(cb, ax, 0)
    out = np.empty(ca.shape, dtype=object)
    for i in np.ndindex(ca.shape[1:]):
        x = [ca[(k,) + i] for k in range(3)]; y = [cb[(k,) + i] for k in range(3)]
        for k in range(3):
            p, q = (k + 1) % 3, (k + 2) % 3
            out[(k,) + i] = tm.sub(tm.mul(x[p], y[q]), tm.mul(x[q], y[p]))
    return it.newT(TD(dims, axes, np.moveaxis(out, 0, ax).copy(), V.promote(a.dtype, b.dtype), lib))

def mat_apply(td, f):
    """apply f (list of lists -> dict (i,j)->term or term) on the trailing 3x3 block"""
    if td.ndim < 2 or isinstance(td.dims[-1], Space) or isinstance(td.dims[-2], Space): raise Unsupported('matrix function of %s' % (td.dims,))
    if td.dims[-1] != td.dims[-2]: raise Conflict('square matrix expected, got %s' % (td.dims,))
    n = td.dims[-1]
    if n > 3: raise Unsupported('matrix function of size %d' % n)
    return n

def det_(m):
    n = len(m)
    if n == 1: return m[0][0]
    if n == 2: return tm.sub(tm.mul(m[0][0], m[1][1]), tm.mul(m[0][1], m[1][0]))
    r = tm.ZERO
    for j in range(3):
        p, q = (j + 1) % 3, (j + 2) % 3
        r = tm.add(r, tm.mul(m[0][j], tm.sub(tm.mul(m[1][p], m[2][q]), tm.mul(m[1][q], m[2][p]))))
    return r

def blocks(td):
    n = mat_apply(td, None)
    for i in np.ndindex(td.cells.shape[:-2]):
        yield i, [[td.cells[i + (a, b)] for b in range(n)] for a in range(n)]

@reg('det', 'linalg.det')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); mat_apply(td, None)
    out = np.empty(td.cells.shape[:-2], dtype=object)
    for i, m in blocks(td): out[i] = det_(m)
    return it.newT(TD(td.dims[:-2], td.axes[:-2], out, td.dtype, lib))

def inv_(m):
    n = len(m); d = det_(m)
    if n == 1: return [[tm.div(tm.ONE, d)]]
    if n == 2: return [[tm.div(m[1][1], d), tm.div(tm.neg(m[0][1]), d)], [tm.div(tm.neg(m[1][0]), d), tm.div(m[0][0], d)]]
    r = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3; p, q = (j + 1) % 3, (j + 2) % 3
            r[j][i] = tm.div(tm.sub(tm.mul(m[a][p], m[b][q]), tm.mul(m[a][q], m[b][p])), d)
    return r

def inv_td(td):
    out = td.cells.copy()
    for i, m in blocks(td):
        r = inv_(m)
        for a in range(len(m)):
            for b in range(len(m)): out[i + (a, b)] = r[a][b]
    return td.repl(cells=out, root=None)

@reg('inv', 'linalg.inv', 'inverse', 'linalg.pinv')
def _(it, lib, args, kw):
    return it.newT(inv_td(TDa(it, args[0], lib)).repl(lib=lib))

@reg('linalg.solve')
def _(it, lib, args, kw):
    A, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    if not any(isinstance(d, Space) for d in A.dims[-2:]) and A.dims[-1] <= 3:
        inv = inv_td(A)
        return it.newT(V.matmul(inv, b).repl(lib=lib))
    raise Unsupported('solve')

def chol_(m):
    n = len(m); L = [[tm.ZERO] * n for _ in range(n)]
    for j in range(n):
        s = m[j][j]
        for k in range(j): s = tm.sub(s, tm.mul(L[j][k], L[j][k]))
        L[j][j] = tm.fn('sqrt', s)
        for i in range(j + 1, n):
            s = m[i][j]
            for k in range(j): s = tm.sub(s, tm.mul(L[i][k], L[j][k]))
            L[i][j] = tm.div(s, L[j][j])
    return L

@reg('linalg.cholesky', 'cholesky')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); out = td.cells.copy()
    up_ = flag(it, kw.get('upper', False))
    for i, m in blocks(td):
        L = chol_(m)
        for a in range(len(m)):
            for b in range(len(m)): out[i + (a, b)] = L[b][a] if up_ else L[a][b]
    return it.newT(td.repl(cells=out, root=None, lib=lib))

@reg('linalg.eigvalsh')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    out = np.empty(td.cells.shape[:-1], dtype=object)
    for i, m in blocks(td):
        for k in range(len(m)): out[i + (k,)] = tm.uf('eigvalsh', tm.num(k), *[c for row in m for c in row])
    return it.newT(TD(td.dims[:-1], td.axes[:-1], out, td.dtype, lib))

@reg('einsum')
def _(it, lib, args, kw):
    spec = args[0]
    if not isinstance(spec, str): raise Unsupported('einsum spec')
    ops = args[1:]
    if len(ops) == 1 and isinstance(it.simp(ops[0]), (Lst, tuple)): ops = it.iter_list(ops[0])
    return it.newT(V.einsum(spec, *[TDa(it, o, lib) for o in ops]).repl(lib=lib))

@reg('trace')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); r = tm.ZERO
    for i in range(td.dims[0]): r = tm.add(r, td.cells[i, i])
    return it.newT(V.scalar(r, td.dtype, lib))

@reg('diag', 'diagonal')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    a1, a2 = (kw.get(k, d) for k, d in ((('dim1', 0), ('dim2', 1)) if lib == 'torch' else (('axis1', 0), ('axis2', 1))))
    if td.ndim > 1 and (td.ndim > 2 or kw):
        if len(args) > 1 or not isinstance(a1, int) or not isinstance(a2, int) or set(kw) - {'dim1', 'dim2', 'axis1', 'axis2'}: raise Unsupported('diagonal')
        a1, a2 = a1 % td.ndim, a2 % td.ndim; rest = [i for i in range(td.ndim) if i not in (a1, a2)]
        if isinstance(td.dims[a1], Space) or isinstance(td.dims[a2], Space) or a1 == a2: raise Unsupported('diagonal')
        x = np.transpose(td.cells, rest + [a1, a2]); n = min(td.dims[a1], td.dims[a2])
        cells = np.empty(x.shape[:-2] + (n,), dtype=object)
        for i in range(n): cells[..., i] = x[..., i, i]
        return it.newT(TD(tuple(td.dims[i] for i in rest) + (n,), tuple(td.axes[i] for i in rest) + (None,), cells, td.dtype, lib))
    if any(isinstance(d, Space) for d in td.dims): raise Unsupported('diag')
    if td.ndim == 1:
        n = td.dims[0]; c = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n): c[i, j] = td.cells[i] if i == j else tm.ZERO
    elif td.ndim == 2:
        n = min(td.dims); c = np.empty((n,), dtype=object)
        for i in range(n): c[i] = td.cells[i, i]
    else: raise Unsupported('diag')
    return it.newT(td.repl(dims=None, axes=None, cells=c, root=None, lib=lib))

@reg('diag_embed')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    if kw or len(args) > 1 or isinstance(td.dims[-1], Space): raise Unsupported('diag_embed')
    n = td.dims[-1]; c = np.empty(td.cells.shape + (n,), dtype=object)
    for ix in np.ndindex(*c.shape): c[ix] = td.cells[ix[:-1]] if ix[-1] == ix[-2] else tm.ZERO
    return it.newT(TD(td.dims + (n,), td.axes + (None,), c, td.dtype, lib))

# ------------------------------------------------------------------ creation
def _filled(it, lib, shape, t, dt):
    cells = np.empty(tuple(d if not isinstance(d, Space) else 1 for d in shape), dtype=object)
    for i in np.ndindex(cells.shape): cells[i] = t
    used = set(); axes = []
    for d in shape:
        if isinstance(d, Space):
            a = V.free_axis(d, used); used.add(a); axes.append(a)
        else: axes.append(None)
    return it.newT(TD(shape, axes, cells, dt, lib))

def _mkfill(names, t):
    def g(it, lib, args, kw):
        sh = arg(args, kw, 0, 'size', 'shape')
        a = list(args)
        dt = dtype_name(it, kw.get('dtype')) 
        if a and (isinstance(it.simp(a[0]), (tuple, Lst))):
            if len(a) > 1: dt = dtype_name(it, a[1])
            shape = shape_list(it, a[:1])
        elif a and lib == 'numpy':
            if len(a) > 1: dt = dtype_name(it, a[1])
            shape = shape_list(it, a[:1])
        elif a: shape = shape_list(it, a)
        else: shape = shape_list(it, [sh])
        tt = t
        if dt == 'b': tt = tm.FALSE if t is tm.ZERO else tm.TRUE
        if t is None: tt = tm.unk('uninitialised memory')
        return _filled(it, lib, shape, tt, dt or it.default_dtype(lib))
    for n in names: FN[n] = g
_mkfill(('zeros',), tm.ZERO); _mkfill(('ones',), tm.ONE); _mkfill(('empty',), None)

def _mklike(names, t):
    def g(it, lib, args, kw):
        td = TDa(it, args[0], lib)
        dt = dtype_name(it, kw.get('dtype')) or td.dtype
        tt = t if t is not None else it.as_term(arg(args, kw, 1, 'fill_value'))
        if dt == 'b': tt = tm.FALSE if t is tm.ZERO else tm.TRUE
        return it.newT(td.repl(cells=td.map(lambda c: tt), dtype=dt, lib=lib, tags=()))
    for n in names: FN[n] = g
_mklike(('zeros_like',), tm.ZERO); _mklike(('ones_like',), tm.ONE); _mklike(('full_like',), None)

@reg('empty_like')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    return it.newT(td.repl(cells=td.map(lambda c: tm.unk('uninitialised memory')), dtype=dtype_name(it, kw.get('dtype')) or td.dtype, lib=lib, tags=()))

@reg('full')
def _(it, lib, args, kw):
    sh = arg(args, kw, 0, 'size', 'shape'); v = arg(args, kw, 1, 'fill_value')
    dt = dtype_name(it, kw.get('dtype'))
    td = it.to_td(v, lib)
    if td.ndim: raise Unsupported('full')
    return _filled(it, lib, shape_list(it, [sh]), td.cells[()], dt or td.dtype)

@reg('eye', 'identity')
def _(it, lib, args, kw):
    n = int_of(it, args[0])
    if n is None: raise Unsupported('eye')
    m = n
    if len(args) > 1: m = int_of(it, args[1])
    return it.newT(V.const_td(np.eye(n, m), dtype_name(it, kw.get('dtype')) or 'f64', lib))

@reg('arange', 'range')
def _(it, lib, args, kw):
    a = [it.simp(x) for x in args]
    for n in ('start', 'end', 'stop', 'step'):
        pass
    if len(a) == 1: st, en, sp = 0, a[0], 1
    elif len(a) == 2: st, en, sp = a[0], a[1], 1
    elif len(a) >= 3: st, en, sp = a[:3]
    else: st, en, sp = kw.get('start', 0), kw.get('end', kw.get('stop')), kw.get('step', 1)
    if len(a) < 3 and 'step' in kw: sp = it.simp(kw['step'])
    ints = all(it._isint(x) or (isinstance(x, T) and it.td(x).dtype in INTS) for x in (st, en, sp))
    dt = dtype_name(it, kw.get('dtype')) or ('i64' if ints else it.default_dtype(lib))
    cn = [int_of(it, x) if it._isint(x) or isinstance(x, T) else None for x in (st, en, sp)]
    if ints and all(x is not None for x in cn):
        r = list(range(*cn))
        if len(r) <= 80: return it.newT(V.const_td(np.array(r, dtype=float), dt, lib).repl(dims=(len(r),)))
    s, e, p = term_of(it, st), term_of(it, en), term_of(it, sp)
    n = tm.sub(e, s)
    if not (tm.isnum(p) and p.args[0] == 1): n = tm.div(n, p)
    if not ints: n = tm.fn('ceil', n)
    elif not (tm.isnum(p) and p.args[0] == 1): n = tm.fn('ceil', n)
    d = sym_dim(n)
    if isinstance(d, int): return it.newT(TD((d,), (None,), np.array([tm.add(s, tm.mul(p, tm.num(i))) for i in range(d)] + [None], dtype=object)[:-1], dt, lib))
    v = tm.var(d, 0)
    c = np.empty((1,), dtype=object); c[0] = tm.add(s, tm.mul(p, v))
    return it.newT(TD((d,), (v,), c, dt, lib))

@reg('linspace')
def _(it, lib, args, kw):
    a, b = term_of(it, arg(args, kw, 0, 'start')), term_of(it, arg(args, kw, 1, 'end', 'stop'))
    n = arg(args, kw, 2, 'steps', 'num', default=50)
    endp = flag(it, arg(args, kw, None, 'endpoint', default=True))
    nt = term_of(it, n)
    d = as_dim(it, n)
    den = tm.sub(nt, tm.ONE) if endp else nt
    step = tm.div(tm.sub(b, a), den)
    if isinstance(d, int) and d <= 80:
        c = np.empty((d,), dtype=object)
        for i in range(d): c[i] = tm.add(a, tm.mul(step, tm.num(i)))
        return it.newT(TD((d,), (None,), c, 'f64', lib))
    if isinstance(d, int): d = tm.Range(tm.num(d))
    v = tm.var(d, 0); c = np.empty((1,), dtype=object); c[0] = tm.add(a, tm.mul(step, v))
    return it.newT(TD((d,), (v,), c, 'f64', lib))

@reg('meshgrid')
def _(it, lib, args, kw):
    a = list(args)
    if len(a) == 1 and isinstance(it.simp(a[0]), (tuple, Lst)): a = it.iter_list(a[0])
    tds = [TDa(it, x, lib) for x in a]
    ind = it.simp(kw.get('indexing', 'ij' if lib == 'torch' else 'xy'))
    n = len(tds); used = set(); dims = []; axes = []
    ren = []
    for t in tds:
        if t.ndim != 1: raise Unsupported('meshgrid')
        d = t.dims[0]
        if isinstance(d, Space):
            x = V.free_axis(d, used); used.add(x); axes.append(x); ren.append({t.axes[0]: x})
        else: axes.append(None); ren.append({})
        dims.append(d)
    outs = []
    shp = tuple(1 if isinstance(d, Space) else d for d in dims)
    for k, t in enumerate(tds):
        c = np.empty(shp, dtype=object)
        for i in np.ndindex(shp): c[i] = tm.let(ren[k], t.cells[i[k]])
        td = TD(dims, axes, c, t.dtype, lib)
        if ind == 'xy' and n >= 2: td = V.permute(td, [1, 0] + list(range(2, n)))
        outs.append(it.newT(td))
    return it.mkL(outs)

@reg('tensor', 'array', 'as_tensor', 'asarray', 'ascontiguousarray', 'from_numpy', 'scalar_tensor', 'asanyarray', 'FloatTensor', 'asfarray')
def _(it, lib, args, kw): raise Unsupported('creation')

def make_array(it, lib, name, args, kw):
    v = it.simp(arg(args, kw, 0, 'data', 'obj', 'object', 'a'))
    d = arg(args, kw, 1 if name != 'from_numpy' else None, 'dtype')
    dt = dtype_name(it, d)
    copy = name in ('tensor', 'array', 'scalar_tensor')
    if name == 'array' and kw.get('copy') is False: copy = False
    if isinstance(v, T):
        td = it.td(v)
        if not copy and (dt is None or dt == td.dtype):
            if td.lib == lib: return v
            return it.mkT(td.repl(lib=lib), view_of=v)
        return it.newT(cast(td, dt).repl(lib=lib, tags=td.tags))
    if isinstance(v, Phi):
        return it.lift(lambda x: make_array(it, lib, name, [x] + list(args[1:]), kw), v)
    td = it.to_td(v, lib)
    if isinstance(v, (Lst, tuple)) and td.dtype == 'i64' or (isinstance(v, int) and not isinstance(v, bool)): pass
    return it.newT(cast(td, dt).repl(lib=lib))

# ------------------------------------------------------------------ shape
def seq(it, v):
    v = it.simp(v)
    if isinstance(v, Lst):
        its = it.items(v)
        return v
    return v

@reg('cat', 'concatenate', 'concat')
def _(it, lib, args, kw):
    l = it.iter_list(arg(args, kw, 0, 'tensors', 'arrays'))
    ax = axis_of(it, args, kw, 1, default=0)
    if l is None:
        v = it.simp(args[0])
        if isinstance(v, Lst):
            its = it.items(v)
            # concatenation of one piece per loop element
            if any(isinstance(x, Gen) for x in its):
                tds = []
                for x in its:
                    if isinstance(x, Gen):
                        e = it.uniform(it.to_td(x.elem, lib), x.v)
                        vv, f = it.gen_space(x)
                        ed = e.dims[V.norm_axis(ax, e.ndim)]
                        if ed == 1:
                            a2 = V.norm_axis(ax, e.ndim)
                            e2 = e.repl(cells=e.map(f), dims=e.dims[:a2] + (vv.args[0],) + e.dims[a2 + 1:], axes=e.axes[:a2] + (vv,) + e.axes[a2 + 1:])
                            tds.append(e2)
                        else: raise Unsupported('ragged concatenation')
                    else: tds.append(it.to_td(x, lib))
                return it.newT(V.cat(tds, ax).repl(lib=lib))
        raise Unsupported('concatenation of %r' % (args[0],))
    def go(*xs):
        return it.newT(V.cat([it.to_td(x, lib) for x in xs], ax if ax is not None else 0).repl(lib=lib))
    return it.lift(go, *l)

@reg('stack')
def _(it, lib, args, kw):
    v = it.simp(arg(args, kw, 0, 'tensors', 'arrays'))
    ax = axis_of(it, args, kw, 1, default=0)
    l = it.iter_list(v)
    if l is None:
        td = it.list_td(v, lib)
        if ax: td = V.permute(td, [j for j in range(1, td.ndim)][:ax] + [0] + [j for j in range(1, td.ndim)][ax:])
        return it.newT(td)
    return it.newT(V.stack([it.to_td(x, lib) for x in l], ax).repl(lib=lib))

@reg('vstack', 'row_stack')
def _(it, lib, args, kw):
    l = it.iter_list(args[0])
    if l is None: return it.newT(it.list_td(it.simp(args[0]), lib))
    tds = [it.to_td(x, lib) for x in l]
    return it.newT(V.cat([V.expand(t, 0) if t.ndim == 1 else t for t in tds], 0).repl(lib=lib))

@reg('hstack')
def _(it, lib, args, kw):
    tds = [it.to_td(x, lib) for x in it.iter_list(args[0])]
    return it.newT(V.cat(tds, 0 if tds[0].ndim == 1 else 1).repl(lib=lib))

@reg('column_stack')
def _(it, lib, args, kw):
    tds = [it.to_td(x, lib) for x in it.iter_list(args[0])]
    return it.newT(V.cat([V.expand(t, 1) if t.ndim == 1 else t for t in tds], 1).repl(lib=lib))

def view(it, x, td):
    if isinstance(x, T): return it.mkT(td, view_of=x)
    return it.newT(td)

@reg('reshape', 'view')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    sh = list(args[1:]) or [kw.get('shape', kw.get('newshape'))]
    s0 = it.simp(sh[0])
    if isinstance(s0, Opq) and s0.tag == 'dtype': return FN['to'](it, lib, args, kw)
    return view(it, x, V.reshape(td, shape_list(it, sh)))

@reg('flatten', 'ravel')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    if len(args) > 1 or 'start_dim' in kw:
        s = int_of(it, arg(args, kw, 1, 'start_dim', default=0)); e = int_of(it, arg(args, kw, 2, 'end_dim', default=-1))
        s, e = V.norm_axis(s, td.ndim), V.norm_axis(e, td.ndim)
        sh = list(td.dims[:s]) + [-1] + list(td.dims[e + 1:])
        r = V.reshape(td, sh)
    elif td.ndim == 1: r = td
    elif td.ndim == 0: r = V.expand(td, 0)
    else: r = V.reshape(td, [-1])
    if FN is None: pass
    return view(it, x, r)

@reg('unsqueeze', 'expand_dims')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib); ax = axis_of(it, args, kw, 1)
    if ax < 0: ax += td.ndim + 1
    if not 0 <= ax <= td.ndim: raise Conflict('unsqueeze axis')
    return view(it, x, V.expand(td, ax))

@reg('squeeze')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib); ax = axis_of(it, args, kw, 1)
    if isinstance(ax, tuple):
        for a in sorted([V.norm_axis(a, td.ndim) for a in ax], reverse=True): td = V.squeeze(td, a)
        return view(it, x, td)
    return view(it, x, V.squeeze(td, ax))

@reg('transpose', 'swapaxes', 'swapdims')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    rest = list(args[1:]) + [kw[k] for k in ('dim0', 'dim1', 'axes') if k in kw]
    if len(rest) == 2:
        a, b = [V.norm_axis(int_of(it, r), td.ndim) for r in rest]
        o = list(range(td.ndim)); o[a], o[b] = o[b], o[a]
    elif not rest: o = list(reversed(range(td.ndim)))
    else:
        l = it.iter_list(rest[0]) if not isinstance(rest[0], int) else rest
        o = [V.norm_axis(int_of(it, r), td.ndim) for r in l]
    return view(it, x, V.permute(td, o))

@reg('t')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    return view(it, x, V.permute(td, list(reversed(range(td.ndim)))))

@reg('permute')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    rest = args[1:] if args[1:] else [kw['dims']]
    l = it.iter_list(rest[0]) if len(rest) == 1 and not isinstance(it.simp(rest[0]), int) else rest
    o = [V.norm_axis(int_of(it, r), td.ndim) for r in l]
    if sorted(o) != list(range(td.ndim)): raise Conflict('permute %s of %d dims' % (o, td.ndim))
    return view(it, x, V.permute(td, o))

@reg('moveaxis', 'movedim')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    a, b = V.norm_axis(int_of(it, args[1]), td.ndim), V.norm_axis(int_of(it, args[2]), td.ndim)
    o = [i for i in range(td.ndim) if i != a]; o.insert(b, a)
    return view(it, x, V.permute(td, o))

def bcast(td, shape):
    """numpy-style broadcast to `shape` (ints / Spaces / -1)"""
    while td.ndim < len(shape): td = V.expand(td, 0)
    dims = []; axes = []; used = set(a for a in td.axes if a is not None); c = td.cells
    for j, (d, s) in enumerate(zip(td.dims, shape)):
        if isinstance(s, int) and s == -1 or d is s or (not isinstance(d, Space) and not isinstance(s, Space) and d == s):
            dims.append(d); axes.append(td.axes[j]); continue
        if d == 1 and not isinstance(d, Space):
            if isinstance(s, Space):
                a = V.free_axis(s, used); used.add(a); dims.append(s); axes.append(a)
            else:
                c = np.repeat(c, s, axis=j); dims.append(s); axes.append(None)
            continue
        raise Conflict('broadcast of %s to %s' % (td.dims, shape))
    return td.repl(dims=dims, axes=axes, cells=c, root=None)

@reg('expand', 'broadcast_to')
def _(it, lib, args, kw):
    x = it.simp(args[0]); td = TDa(it, x, lib)
    return view(it, x, bcast(td, shape_list(it, list(args[1:]))))

@reg('expand_as')
def _(it, lib, args, kw):
    return view(it, args[0], bcast(TDa(it, args[0], lib), list(TDa(it, args[1], lib).dims)))

def tile_(it, td, reps):
    while td.ndim < len(reps): td = V.expand(td, 0)
    reps = [1] * (td.ndim - len(reps)) + list(reps)
    for j, r in enumerate(reps):
        if r == 1: continue
        d = td.dims[j]
        if d == 1 and not isinstance(d, Space):
            td = bcast(td, [(-1 if i != j else r) for i in range(td.ndim)])
        elif not isinstance(d, Space) and isinstance(r, int):
            td = td.repl(dims=td.dims[:j] + (d * r,) + td.dims[j + 1:], cells=np.concatenate([td.cells] * r, axis=j), root=None)
        else:
            S = tm.Prod([r, d]); a = V.free_axis(S, set(x for x in td.axes if x is not None))
            if not isinstance(d, Space):
                parts = [np.take(td.cells, i, axis=j) for i in range(d)]
                c = np.empty(parts[0].shape, dtype=object)
                for i in np.ndindex(c.shape): c[i] = tm.sel(tm.proj(1, a, S), [p[i] for p in parts])
                c = np.expand_dims(c, j)
            else: c = td.map(lambda t: tm.let({td.axes[j]: tm.proj(1, a, S)}, t))
            td = td.repl(dims=td.dims[:j] + (S,) + td.dims[j + 1:], axes=td.axes[:j] + (a,) + td.axes[j + 1:], cells=c, root=None)
    return td

@reg('tile')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    return it.newT(tile_(it, td, shape_list(it, list(args[1:]) or [kw.get('dims', kw.get('reps'))])).repl(root=None, lib=lib))

def rep_interleave(it, td, n, ax):
    d = td.dims[ax]
    if d == 1 and not isinstance(d, Space): return bcast(td, [(-1 if i != ax else n) for i in range(td.ndim)])
    if not isinstance(d, Space) and isinstance(n, int):
        return td.repl(dims=td.dims[:ax] + (d * n,) + td.dims[ax + 1:], cells=np.repeat(td.cells, n, axis=ax), root=None)
    S = tm.Prod([d, n]); a = V.free_axis(S, set(x for x in td.axes if x is not None))
    if not isinstance(d, Space): raise Unsupported('repeat')
    return td.repl(dims=td.dims[:ax] + (S,) + td.dims[ax + 1:], axes=td.axes[:ax] + (a,) + td.axes[ax + 1:],
                   cells=td.map(lambda t: tm.let({td.axes[ax]: tm.proj(0, a, S)}, t)), root=None)

@reg('repeat_interleave')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); n = as_dim(it, arg(args, kw, 1, 'repeats')); ax = axis_of(it, args, kw, 2)
    if ax is None:
        if td.ndim != 1: raise Unsupported('repeat')
        ax = 0
    return it.newT(rep_interleave(it, td, n, V.norm_axis(ax, td.ndim)))

@reg('repeat')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    if lib == 'numpy' or 'axis' in kw:
        n = as_dim(it, args[1]); ax = axis_of(it, args, kw, 2)
        if ax is None: ax = 0
        return it.newT(rep_interleave(it, td, n, ax))
    return it.newT(tile_(it, td, shape_list(it, args[1:])).repl(root=None))

@reg('where')
def _(it, lib, args, kw):
    c = it.simp(arg(args, kw, 0, 'condition'))
    if len(args) == 1:
        ct = cast(TDa(it, c, lib), 'b')
        F = mask_filter(it, ct); f = tm.var(F, 0)
        outs = []
        for k in range(ct.ndim):
            cc = np.empty((1,), dtype=object); cc[0] = tm.up(F, k, f)
            outs.append(it.newT(TD((F,), (f,), cc, 'i64', lib)))
        return tuple(outs)
    ct = cast(TDa(it, c, lib), 'b'); a, b = TDa(it, args[1], lib), TDa(it, args[2], lib)
    da = None if not isinstance(it.simp(args[1]), T) else a.dtype
    db = None if not isinstance(it.simp(args[2]), T) else b.dtype
    return it.newT(V.elementwise(lambda p, x, y: tm.ite(p, x, y), ct, a, b, dtype=V.promote(da, db) if (da or db) else 'f64', lib=lib))

@reg('nonzero', 'argwhere', 'flatnonzero')
def _(it, lib, args, kw): raise Unsupported('nonzero')

def nonzero(it, lib, name, args, kw):
    ct = cast(TDa(it, args[0], lib), 'b')
    F = mask_filter(it, ct); f = tm.var(F, 0)
    tup = name == 'nonzero' and (lib == 'numpy' or flag(it, arg(args, kw, 1, 'as_tuple', default=False)))
    ps = [tm.up(F, k, f) for k in range(ct.ndim)]
    if tup or name == 'flatnonzero':
        outs = []
        for p in ps:
            cc = np.empty((1,), dtype=object); cc[0] = p
            outs.append(it.newT(TD((F,), (f,), cc, 'i64', lib)))
        return outs[0] if name == 'flatnonzero' else tuple(outs)
    cc = np.empty((1, len(ps)), dtype=object); cc[0, :] = ps
    return it.newT(TD((F, len(ps)), (f, None), cc, 'i64', lib))
FN['nonzero'] = lambda it, lib, a, k: nonzero(it, lib, 'nonzero', a, k)
FN['argwhere'] = lambda it, lib, a, k: nonzero(it, lib, 'argwhere', a, k)
FN['flatnonzero'] = lambda it, lib, a, k: nonzero(it, lib, 'flatnonzero', a, k)

@reg('bucketize', 'digitize', 'searchsorted')
def _(it, lib, args, kw): raise Unsupported('bucketize')

def bucketize(it, lib, name, args, kw):
    if name == 'searchsorted': b, x = args[0], args[1]
    else: x, b = args[0], args[1]
    right = flag(it, arg(args, kw, 2, 'right', default=False))
    if it.simp(kw.get('side', 'left')) == 'right': right = True
    if name == 'digitize': right = not right
    x, b = TDa(it, x, lib), TDa(it, b, lib)
    if b.ndim == 1 and not any(isinstance(d, tm.Space) for d in b.dims) and b.cells.size <= 64:
        def count(c):
            n = tm.ZERO
            for e in b.flat(): n = tm.add(n, tm.ite(tm.le(e, c) if right else tm.lt(e, c), tm.ONE, tm.ZERO))
            return n
        return it.newT(x.repl(cells=x.map(count), dtype='i64', lib=lib))
    bt = tm.tens([a for a in b.axes if a is not None], b.flat())
    return it.newT(x.repl(cells=x.map(lambda c: tm.fn('bucketize', c, bt, tm.TRUE if right else tm.FALSE)), dtype='i64', lib=lib))
for _n in ('bucketize', 'digitize', 'searchsorted'): FN[_n] = (lambda nm: lambda it, lib, a, k: bucketize(it, lib, nm, a, k))(_n)

def order(it, td, desc, ax):
    if td.ndim != 1: raise Unsupported('sort of %d dims' % td.ndim)
    d = td.dims[0]
    if not isinstance(d, Space): raise Unsupported('sort of fixed dim')
    key = ('sort', tm.tens([td.axes[0]], td.flat()).id, bool(desc))
    P = tm.Perm(d, key); p = tm.var(P, 0)
    P.info = (tm.tens([td.axes[0]], td.flat()), bool(desc))
    return P, p, tm.up(P, 0, p)

@reg('argsort')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    P, p, t = order(it, td, flag(it, kw.get('descending', False)), 0)
    c = np.empty((1,), dtype=object); c[0] = t
    return it.newT(TD((P,), (p,), c, 'i64', lib))

@reg('sort')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    P, p, t = order(it, td, flag(it, kw.get('descending', False)), 0)
    c = np.empty((1,), dtype=object); c[0] = t
    i = it.newT(TD((P,), (p,), c, 'i64', lib))
    c2 = np.empty((1,), dtype=object); c2[0] = tm.let({td.axes[0]: t}, td.flat()[0])
    v = it.newT(TD((P,), (p,), c2, td.dtype, lib))
    if lib == 'numpy': return v
    return Opq(tm.uf('minmax'), 'minmax', (v, i))

@reg('unique')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    extra = [k for k in ('return_index', 'return_inverse', 'return_counts') if k in kw and flag(it, kw[k])]
    if extra: raise Unsupported('unique with ' + extra[0])
    ax = axis_of(it, args, kw, None)
    full_t = tm.tens([a for a in td.axes if a is not None], td.flat())
    if ax == 0 and td.ndim == 2 and isinstance(td.dims[0], Space):
        U = tm.Opaque('unique%d' % full_t.id); u = tm.var(U, 0)
        t = tm.iatom('uniq', full_t, u)     # the source row holding the u-th distinct row
        cells = td.map(lambda c: tm.let({td.axes[0]: t}, c))
        return it.newT(TD((U, td.dims[1]), (u, None), cells, td.dtype, lib))
    if td.ndim == 1 and isinstance(td.dims[0], Space):
        U = tm.Opaque('unique%d' % full_t.id); u = tm.var(U, 0)
        t = tm.iatom('uniq', full_t, u)
        it.uniq[U] = (td, u)
        cells = td.map(lambda c: tm.let({td.axes[0]: t}, c))
        return it.newT(TD((U,), (u,), cells, td.dtype, lib))
    raise Unsupported('unique')

@reg('allclose', 'isclose')
def _(it, lib, args, kw): raise Unsupported('allclose')

def allclose(it, lib, name, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    rt = it.as_term(arg(args, kw, 2, 'rtol', default=1e-5)); at = it.as_term(arg(args, kw, 3, 'atol', default=1e-8))
    r = V.elementwise(lambda x, y: tm.le(tm.fn('abs', tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.fn('abs', y)))), a, b, dtype='b', lib=lib)
    if name == 'isclose': return it.newT(r)
    return it.pybool(V.reduce(r, 'all').cells[()])
FN['allclose'] = lambda it, lib, a, k: allclose(it, lib, 'allclose', a, k)
FN['isclose'] = lambda it, lib, a, k: allclose(it, lib, 'isclose', a, k)

@reg('array_equal', 'equal')
def _(it, lib, args, kw):
    a, b = TDa(it, args[0], lib), TDa(it, args[1], lib)
    if len(a.dims) != len(b.dims): return False
    r = V.elementwise(tm.eq, a, b, dtype='b', lib=lib)
    return it.pybool(V.reduce(r, 'all').cells[()])

@reg('argpartition')
def _(it, lib, args, kw):
    raise Unsupported('argpartition')

def flip_(it, td, dims):
    from .ext_index import slice_dim
    for d in sorted({x % td.ndim for x in dims}):
        if not isinstance(td.dims[d], Space): td = td.repl(cells=np.flip(td.cells, d))
        else: td = slice_dim(it, td, d, slice(None, None, -1))
    return it.newT(td.repl(root=None))

@reg('flip', 'flipud', 'fliplr')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib)
    ds = list(args[1:]) or [kw[k] for k in ('dims', 'axis') if k in kw]
    if not ds: return flip_(it, td, range(td.ndim))
    out = []
    for x in ds:
        x = it.simp(x)
        out += list(it.iter_list(x)) if not isinstance(x, int) else [x]
    return flip_(it, td, [int_of(it, x) for x in out])

@reg('roll')
def _(it, lib, args, kw):
    raise Unsupported('roll')

@reg('nn.functional.pad', 'pad')
def _(it, lib, args, kw):
    x = it.simp(args[0])
    td = TDa(it, x, lib)
    pads = it.simp(arg(args, kw, 1, 'pad', 'pad_width'))
    val = it.as_term(arg(args, kw, 3, 'value', default=0))
    return it.newT(pad_td(it, td, pads, val))

def pad_td(it, td, pads, val):
    l = it.iter_list(pads)
    if l is None: raise Unsupported('pad')
    ps = [term_of(it, x) for x in l]
    # torch order: last dim first
    for k in range(0, len(ps), 2):
        j = td.ndim - 1 - k // 2
        lo, hi = ps[k], ps[k + 1]
        d = td.dims[j]
        n = tm.add(tm.add(tm.length(d), lo), hi)
        S = sym_dim(n)
        if not isinstance(S, Space): raise Unsupported('pad to fixed')
        a = V.free_axis(S, set(x for x in td.axes if x is not None))
        if isinstance(d, Space):
            inner = td.map(lambda c: tm.let({td.axes[j]: tm.iatom('shift', tm.sub(a, lo))}, c))
        else: raise Unsupported('pad of fixed')
        cells = np.empty(inner.shape, dtype=object)
        for i in np.ndindex(inner.shape):
            cells[i] = tm.ite(tm.and_(tm.le(lo, a), tm.lt(a, tm.add(lo, tm.length(d)))), inner[i], val)
        td = td.repl(dims=td.dims[:j] + (S,) + td.dims[j + 1:], axes=td.axes[:j] + (a,) + td.axes[j + 1:], cells=cells, root=None)
    return td

@reg('nn.functional.conv2d', 'conv2d')
def _(it, lib, args, kw):
    x = TDa(it, arg(args, kw, 0, 'input'), lib); w = TDa(it, arg(args, kw, 1, 'weight'), lib)
    pad = it.as_term(arg(args, kw, 4, 'padding', default=0))
    if x.ndim != 4 or w.ndim != 4: raise Conflict('conv2d of %d/%d dims' % (x.ndim, w.ndim))
    if x.dims[1] != 1 or w.dims[0] != 1 or w.dims[1] != 1: raise Unsupported('conv2d channels')
    ax = [a for a in x.axes[2:] if a is not None]
    if len(ax) != 2: raise Unsupported('conv2d of fixed frame')
    wt = it.as_term(it.newT(w))
    wdim = w.dims[2]; wl = tm.length(wdim) if isinstance(wdim, Space) else tm.num(wdim)
    if x.dtype != w.dtype: it.event('dtype', 'conv2d of %s input with %s weights' % (x.dtype, w.dtype))
    it.event('conv2d', dict(weight=w, pad=pad, wlen=wl, input=x))
    def f(c):
        return tm.uf('conv2d', tm.tens(ax, [c]), wt, pad, ax[0], ax[1])
    return it.newT(x.repl(cells=x.map(f), root=None, dtype=x.dtype, tags=tuple(x.tags)))

@reg('is_tensor')
def _(it, lib, args, kw):
    return it.lift(lambda v: _istens(it, v), args[0])

def _istens(it, v):
    if isinstance(v, T): return it.td(v).lib == 'torch'
    if isinstance(v, Opq) and v.tag == '?': return Sym(tm.batom('is_tensor', v.t), 'bool')
    return False

@reg('numel', 'size_')
def _(it, lib, args, kw):
    return it.dimval(V.size(TDa(it, args[0], lib)))

@reg('isscalar', 'is_scalar')
def _(it, lib, args, kw):
    v = it.simp(args[0]); return isinstance(v, (int, float, Sym, str))

@reg('iscomplex', 'isreal')
def _(it, lib, args, kw): raise Unsupported('complex')

@reg('shape')
def _(it, lib, args, kw): return it.x.shape_of(it, TDa(it, args[0], lib))
@reg('ndim')
def _(it, lib, args, kw): return TDa(it, args[0], lib).ndim
@reg('clone', 'copy')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); return it.newT(td.repl(lib=lib))
@reg('atleast_1d')
def _(it, lib, args, kw):
    x = liftarr(it, args[0], lib); td = TDa(it, x, lib)
    return view(it, x, td if td.ndim else V.expand(td, 0))
@reg('atleast_2d')
def _(it, lib, args, kw):
    x = liftarr(it, args[0], lib); td = TDa(it, x, lib)
    while td.ndim < 2: td = V.expand(td, 0)
    return view(it, x, td)
@reg('index_select')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); ax = V.norm_axis(int_of(it, args[1]), td.ndim)
    return t_getitem(it, it.newT(td), (slice(None),) * ax + (it.simp(args[2]),))
@reg('masked_select')
def _(it, lib, args, kw): return t_getitem(it, it.simp(args[0]), it.simp(args[1]))
@reg('masked_fill')
def _(it, lib, args, kw):
    a, m = TDa(it, args[0], lib), TDa(it, args[1], lib); v = it.as_term(args[2])
    return it.newT(V.elementwise(lambda x, c: tm.ite(c, v, x), a, m, dtype=a.dtype, lib=lib))
@reg('take')
def _(it, lib, args, kw):
    td = TDa(it, args[0], lib); ax = axis_of(it, args, kw, 2)
    if ax is None: raise Unsupported('take')
    return t_getitem(it, it.newT(td), (slice(None),) * V.norm_axis(ax, td.ndim) + (it.simp(args[1]),))
@reg('compress')
def _(it, lib, args, kw): raise Unsupported('compress')
@reg('triu', 'tril')
def _(it, lib, args, kw): raise Unsupported('triu')
