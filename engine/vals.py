"""Abstract values: tensors over index spaces, symbolic scalars, opaque externals, unions."""
import itertools
import numpy as np
from . import terms as tm
from .terms import Term, Space


class Unsupported(Exception):
    """The abstraction has no model for this construct; the value becomes unknown."""


class Conflict(Exception):
    """A definite shape or index-space contradiction."""


class TD:
    """Immutable tensor content: dims (int|Space), axes (None|var), cells (object array)."""
    __slots__ = ('dims', 'axes', 'cells', 'dtype', 'lib', 'root', 'loc', 'tags')

    def __init__(self, dims, axes, cells, dtype='f64', lib='torch', root=None, loc=None, tags=()):
        self.dims = tuple(dims); self.axes = tuple(axes)
        if not isinstance(cells, np.ndarray) or cells.dtype != object:
            c = np.empty((), dtype=object); c[()] = cells; cells = c
        self.cells = cells
        self.dtype = dtype; self.lib = lib; self.root = root; self.loc = loc; self.tags = tags

    def repl(self, **kw):
        d = dict(dims=self.dims, axes=self.axes, cells=self.cells, dtype=self.dtype, lib=self.lib, root=self.root, loc=self.loc, tags=self.tags)
        d.update(kw)
        return TD(**d)

    @property
    def ndim(self): return len(self.dims)

    def map(self, f):
        out = np.empty(self.cells.shape, dtype=object)
        for i in np.ndindex(self.cells.shape): out[i] = f(self.cells[i])
        return out

    def flat(self):
        return [self.cells[i] for i in np.ndindex(self.cells.shape)]

    def __repr__(self):
        return 'TD(%s,%s,%s)' % (self.dims, self.dtype, ' '.join(tm.show(c, 3) for c in self.flat()[:4]))


class T:
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid
    def __repr__(self): return 'T#%d' % self.oid
    def __eq__(self, o): return isinstance(o, T) and o.oid == self.oid
    def __hash__(self): return hash(('T', self.oid))


class Sym:
    """symbolic python scalar"""
    __slots__ = ('t', 'ty')
    def __init__(self, t, ty='float'): self.t = t; self.ty = ty
    def __repr__(self): return 'Sym(%s:%s)' % (tm.show(self.t, 4), self.ty)
    def __eq__(self, o): return isinstance(o, Sym) and o.t is self.t
    def __hash__(self): return hash(self.t.id)


class Lst:
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, Lst) and o.oid == self.oid
    def __hash__(self): return hash(('L', self.oid))
    def __repr__(self): return 'Lst#%d' % self.oid


class Gen:
    """list segment: elem for every point v of space (where cond)"""
    __slots__ = ('v', 'cond', 'elem', 'loop')
    def __init__(self, v, cond, elem, loop=None): self.v = v; self.cond = cond; self.elem = elem; self.loop = loop
    def __repr__(self): return 'Gen(%s|%s:%r)' % (self.v, tm.show(self.cond, 3), self.elem)


class Dct:
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, Dct) and o.oid == self.oid
    def __hash__(self): return hash(('D', self.oid))
    def __repr__(self): return 'Dct#%d' % self.oid


class Obj:
    __slots__ = ('oid', 'cls')
    def __init__(self, oid, cls): self.oid = oid; self.cls = cls
    def __eq__(self, o): return isinstance(o, Obj) and o.oid == self.oid
    def __hash__(self): return hash(('O', self.oid))
    def __repr__(self): return 'Obj#%d:%s' % (self.oid, self.cls)


class Opq:
    """value of an external library (or an unknown): uninterpreted"""
    __slots__ = ('t', 'tag', 'info')
    def __init__(self, t, tag='', info=None): self.t = t; self.tag = tag; self.info = info
    def __repr__(self): return 'Opq(%s %s)' % (self.tag, tm.show(self.t, 3))
    def __eq__(self, o): return isinstance(o, Opq) and o.t is self.t and o.tag == self.tag
    def __hash__(self): return hash((self.t.id, self.tag))


class Phi:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'Phi(%s,%r,%r)' % (tm.show(self.c, 3), self.a, self.b)
    def __eq__(self, o): return isinstance(o, Phi) and o.c is self.c and o.a == self.a and o.b == self.b
    def __hash__(self): return hash((self.c.id, 'phi'))


class FuncV:
    __slots__ = ('node', 'mod', 'env', 'cls', 'defaults', 'name')
    def __init__(self, node, mod, env, cls, defaults, name): self.node = node; self.mod = mod; self.env = env; self.cls = cls; self.defaults = defaults; self.name = name
    def __repr__(self): return 'Func(%s)' % self.name
    def __eq__(self, o): return isinstance(o, FuncV) and o.node is self.node and o.env == self.env
    def __hash__(self): return hash(self.name)


class BoundM:
    __slots__ = ('self_', 'f')
    def __init__(self, self_, f): self.self_ = self_; self.f = f
    def __eq__(self, o): return isinstance(o, BoundM) and o.self_ == self.self_ and o.f == self.f
    def __hash__(self): return hash('bm')


class BMeth:
    """bound method of a builtin abstract value"""
    __slots__ = ('self_', 'name')
    def __init__(self, self_, name): self.self_ = self_; self.name = name
    def __eq__(self, o): return isinstance(o, BMeth) and o.self_ == self.self_ and o.name == self.name
    def __hash__(self): return hash(self.name)


class ClassV:
    __slots__ = ('name', 'mod', 'members', 'bases', 'node')
    def __init__(self, name, mod, members, bases, node): self.name = name; self.mod = mod; self.members = members; self.bases = bases; self.node = node
    def __repr__(self): return 'Class(%s)' % self.name


class ModV:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, ModV) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Ext:
    """external dotted name"""
    __slots__ = ('path',)
    def __init__(self, path): self.path = path
    def __eq__(self, o): return isinstance(o, Ext) and o.path == self.path
    def __hash__(self): return hash(self.path)
    def __repr__(self): return 'Ext(%s)' % self.path


class SymIter:
    """generic iteration over an index space"""
    __slots__ = ('v', 'elem', 'space', 'cond', 'kind')
    def __init__(self, v, elem, kind='space', cond=tm.TRUE): self.v = v; self.elem = elem; self.space = v.args[0]; self.cond = cond; self.kind = kind


# --------------------------------------------------------------------------- tensor algebra
_RANK = {'b': 0, 'i32': 1, 'i64': 2, 'f32': 3, 'f64': 4}

def promote(*ds):
    best = None
    for d in ds:
        if d is None: continue
        if d not in _RANK:
            if best is None or best == d: best = d; continue
            if best in ('b', 'i32', 'i64'): best = d; continue
            if d == '?' or best in _RANK: best = '?' if best != d else d; continue
            best = '?'
            continue
        if best is None: best = d
        elif best in _RANK: best = d if _RANK[d] > _RANK[best] else best
        elif d in ('b', 'i32', 'i64'): pass
        else: best = '?'
    return best or 'f64'

def scalar(t, dtype='f64', lib='torch'):
    return TD((), (), t, dtype, lib)

def const_td(arr, dtype='f64', lib='torch'):
    arr = np.asarray(arr)
    cells = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape): cells[i] = tm.num(arr[i].item() if hasattr(arr[i], 'item') else arr[i])
    return TD(arr.shape, (None,) * arr.ndim, cells, dtype, lib)

def free_axis(space, used):
    k = 0
    while tm.var(space, k) in used: k += 1
    return tm.var(space, k)

notes = []          # definite index-space contradictions (filled by align), read by the interpreter

def rename(td, newaxes):
    b = {o: n for o, n in zip(td.axes, newaxes) if o is not None and n is not None and o is not n}
    if not b: return td
    return td.repl(axes=newaxes, cells=td.map(lambda c: tm.let(b, c)))

def align(*tds):
    """broadcast: returns dims, axes, list of cell arrays (aligned)"""
    n = max(t.ndim for t in tds)
    pads = [n - t.ndim for t in tds]
    dims = []; axes = []; used = set()
    new = [[None] * t.ndim for t in tds]
    mism = []
    for j in range(n):
        d = 1; ax = None
        for t, p in zip(tds, pads):
            if j < p: continue
            e = t.dims[j - p]
            if isinstance(e, Space):
                if not isinstance(d, Space):
                    if d != 1: mism.append((d, e))
                    d = e
                elif d is not e:
                    mism.append((d, e))
            else:
                if isinstance(d, Space):
                    if e != 1: mism.append((d, e))
                elif d == 1: d = e
                elif e != 1 and e != d:
                    raise Conflict('shapes %s do not broadcast' % ([t.dims for t in tds],))
        if isinstance(d, Space):
            for t, p in zip(tds, pads):
                if j < p: continue
                a = t.axes[j - p]
                if a is not None and t.dims[j - p] is d and a not in used:
                    ax = a; break
            if ax is None: ax = free_axis(d, used)
            used.add(ax)
        dims.append(d); axes.append(ax)
        for k, (t, p) in enumerate(zip(tds, pads)):
            if j < p: continue
            if t.dims[j - p] is d: new[k][j - p] = ax
            elif isinstance(t.dims[j - p], Space): new[k][j - p] = ('mis', t.dims[j - p], ax)
    outs = []
    for t, na, p in zip(tds, new, pads):
        b = {}
        for o, nn in zip(t.axes, na):
            if o is None or nn is None: continue
            if isinstance(nn, tuple):
                # elementwise pairing of two different index spaces: positionally, i.e. unrelated elements
                b[o] = tm.iatom('at%d' % nn[1].uid, nn[2])
            elif o is not nn: b[o] = nn
        c = t.cells if not b else t.map(lambda x: tm.let(b, x))
        # fixed dim against symbolic dim
        c = c.reshape((1,) * p + c.shape)
        for j in range(n):
            if isinstance(dims[j], Space) and c.shape[j] > 1:
                lst = [np.take(c, i, axis=j) for i in range(c.shape[j])]
                o = np.empty(lst[0].shape, dtype=object)
                for i in np.ndindex(o.shape): o[i] = tm.sel(tm.idx(axes[j]), [l[i] for l in lst])
                c = np.expand_dims(o, j)
        outs.append(c)
    if mism:
        notes.append(mism)
    return dims, axes, outs

def elementwise(f, *tds, dtype=None, lib=None):
    dims, axes, cs = align(*tds)
    bc = np.broadcast_arrays(*cs) if len(cs) > 1 else cs
    out = np.empty(bc[0].shape, dtype=object)
    for i in np.ndindex(out.shape): out[i] = f(*[c[i] for c in bc])
    return TD(dims, axes, out, dtype or promote(*[t.dtype for t in tds]), lib or tds[0].lib)

def norm_axis(a, n):
    if a < 0: a += n
    if not 0 <= a < n: raise Conflict('axis %d out of range for %d dims' % (a, n))
    return a

def reduce_axis(td, name, axis, keepdim=False):
    axis = norm_axis(axis, td.ndim)
    d = td.dims[axis]
    if isinstance(d, Space):
        v = td.axes[axis]
        cells = td.map(lambda c: tm.red(name, d, v, c))
        if keepdim:
            dims = td.dims[:axis] + (1,) + td.dims[axis + 1:]; axes = td.axes[:axis] + (None,) + td.axes[axis + 1:]
            return td.repl(dims=dims, axes=axes, cells=cells, root=None)
        cells = np.take(cells, 0, axis=axis)
    else:
        parts = [np.take(td.cells, i, axis=axis) for i in range(d)]
        if not parts: raise Unsupported('empty reduce')
        out = np.empty(np.shape(parts[0]), dtype=object)
        for i in np.ndindex(out.shape):
            xs = [np.asarray(p, dtype=object)[i] if np.ndim(p) else p for p in parts]
            out[i] = _redlist(name, xs)
        cells = out
        if keepdim:
            cells = np.expand_dims(cells, axis)
            dims = td.dims[:axis] + (1,) + td.dims[axis + 1:]; axes = td.axes[:axis] + (None,) + td.axes[axis + 1:]
            return td.repl(dims=dims, axes=axes, cells=cells, root=None)
    if not isinstance(cells, np.ndarray):
        c = np.empty((), dtype=object); c[()] = cells; cells = c
    return td.repl(dims=td.dims[:axis] + td.dims[axis + 1:], axes=td.axes[:axis] + td.axes[axis + 1:], cells=cells, root=None)

def _redlist(name, xs):
    r = xs[0]
    for x in xs[1:]:
        r = {'sum': tm.add, 'prod': tm.mul, 'any': tm.or_, 'all': tm.and_, 'max': tmax, 'min': tmin}[name](r, x)
    return r

def tmax(a, b):
    if tm.isnum(a) and tm.isnum(b): return a if a.args[0] >= b.args[0] else b
    return tm.ite(tm.lt(a, b), b, a)

def tmin(a, b):
    if tm.isnum(a) and tm.isnum(b): return a if a.args[0] <= b.args[0] else b
    return tm.ite(tm.lt(a, b), a, b)

def reduce(td, name, axis=None, keepdim=False):
    if axis is None:
        for _ in range(td.ndim): td = reduce_axis(td, name, 0)
        return td
    if isinstance(axis, tuple):
        for a in sorted([norm_axis(a, td.ndim) for a in axis], reverse=True): td = reduce_axis(td, name, a, keepdim)
        return td
    return reduce_axis(td, name, axis, keepdim)

def size(td, axis=None):
    if axis is None:
        r = tm.ONE
        for d in td.dims: r = tm.mul(r, tm.length(d))
        return r
    if isinstance(axis, tuple):
        r = tm.ONE
        for a in axis: r = tm.mul(r, tm.length(td.dims[norm_axis(a, td.ndim)]))
        return r
    return tm.length(td.dims[norm_axis(axis, td.ndim)])

def expand(td, j):
    c = np.expand_dims(td.cells, j)
    return td.repl(dims=td.dims[:j] + (1,) + td.dims[j:], axes=td.axes[:j] + (None,) + td.axes[j:], cells=c)

def permute(td, order):
    return td.repl(dims=[td.dims[i] for i in order], axes=[td.axes[i] for i in order], cells=np.transpose(td.cells, order))

def squeeze(td, axis=None):
    if tm.SINGLE:
        for i in reversed(range(td.ndim)) if axis is None else [norm_axis(axis, td.ndim)]:
            d = td.dims[i]
            if isinstance(d, Space) and tm.length(d).op == 'len':
                v, t = td.axes[i], tm.nth(d, tm.ZERO)
                td = squeeze_exact(td.repl(cells=td.map(lambda c: tm.let({v: t}, c))), i)
                if axis is not None: return td
    if axis is not None:
        axis = norm_axis(axis, td.ndim)
        if td.dims[axis] != 1: return td
        drop = [axis]
    else:
        drop = [i for i, d in enumerate(td.dims) if d == 1]
    keep = [i for i in range(td.ndim) if i not in drop]
    c = td.cells
    for i in sorted(drop, reverse=True): c = np.take(c, 0, axis=i)
    if not isinstance(c, np.ndarray):
        z = np.empty((), dtype=object); z[()] = c; c = z
    return td.repl(dims=[td.dims[i] for i in keep], axes=[td.axes[i] for i in keep], cells=c)

def contract(a, b, ia, ib):
    """contract axis ia of a with ib of b after both were aligned as (A..., 1.., k), handled by einsum"""
    raise NotImplementedError

def einsum(spec, *tds):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if '.' in spec: raise Unsupported('einsum ellipsis')
    if out is None:
        al = ''.join(ins); out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    letters = []
    for s in ins:
        for c in s:
            if c not in letters: letters.append(c)
    order = list(out) + [c for c in letters if c not in out]
    ops = []
    for s, t in zip(ins, tds):
        if len(s) != t.ndim: raise Conflict('einsum %s with %d dims' % (s, t.ndim))
        if len(set(s)) != len(s): raise Unsupported('einsum diagonal')
        t2 = permute(t, [s.index(c) for c in order if c in s])
        for j, c in enumerate(order):
            if c not in s: t2 = expand(t2, j)
        ops.append(t2)
    r = elementwise(lambda *xs: _prodl(xs), *ops)
    for j in range(len(order) - 1, len(out) - 1, -1): r = reduce_axis(r, 'sum', j)
    return r

def _prodl(xs):
    r = xs[0]
    for x in xs[1:]: r = tm.mul(r, x)
    return r

def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0: raise Conflict('matmul of scalar')
    a1 = a.ndim == 1; b1 = b.ndim == 1
    if a1: a = expand(a, 0)
    if b1: b = expand(b, 1)
    # (..., m, k) x (..., k, n)
    A = expand(a, a.ndim)                      # ..., m, k, 1
    B = expand(b, b.ndim - 2)                  # ..., 1, k, n
    ka, kb = a.dims[-1], b.dims[-2]
    if not (ka is kb or ka == kb):
        if not isinstance(ka, Space) and not isinstance(kb, Space): raise Conflict('matmul inner dims %s %s' % (a.dims, b.dims))
    r = elementwise(tm.mul, A, B)
    r = reduce_axis(r, 'sum', r.ndim - 2)
    if b1: r = squeeze_exact(r, r.ndim - 1)
    if a1: r = squeeze_exact(r, r.ndim - 1 if b1 else r.ndim - 2)
    return r

def squeeze_exact(td, i):
    c = np.take(td.cells, 0, axis=i)
    if not isinstance(c, np.ndarray):
        z = np.empty((), dtype=object); z[()] = c; c = z
    return td.repl(dims=td.dims[:i] + td.dims[i + 1:], axes=td.axes[:i] + td.axes[i + 1:], cells=c)

def uniq_axes(td):
    """make axis variables distinct (canonical numbering)"""
    used = set(); new = []; ch = False
    for d, a in zip(td.dims, td.axes):
        if a is None: new.append(None); continue
        if a in used: raise Unsupported('repeated axis')
        used.add(a); new.append(a)
    return td

def stack(tds, axis=0):
    n = tds[0].ndim + 1
    axis = norm_axis(axis, n)
    return cat([expand(t, axis) for t in tds], axis)

def cat(tds, axis=0):
    tds = list(tds)
    if len(tds) > 1:
        nz = [t for t in tds if not (any(d == 0 for d in t.dims))]
        dt = promote(*[t.dtype for t in tds])
        if not nz: return tds[0]
        tds = nz
    else:
        dt = tds[0].dtype
    if len(tds) == 1: return tds[0].repl(root=None, dtype=dt)
    nd = {t.ndim for t in tds}
    if len(nd) != 1: raise Conflict('cat of different ranks %s' % [t.dims for t in tds])
    n = nd.pop(); axis = norm_axis(axis, n)
    # align the other axes
    sl = []
    for t in tds: sl.append(t)
    ds = [t.dims[axis] for t in tds]
    if not any(isinstance(d, Space) for d in ds):
        # fixed concatenation: broadcast-align the other axes
        probes = []
        for t in tds:
            for i in range(t.dims[axis]):
                probes.append(squeeze_exact(t.repl(dims=t.dims[:axis] + (1,) + t.dims[axis + 1:], cells=np.take(t.cells, [i], axis=axis)), axis))
        for p in probes[1:]:
            for x, y in zip(p.dims, probes[0].dims):
                if not isinstance(x, Space) and not isinstance(y, Space) and x != y: raise Conflict('cat of %s' % [t.dims for t in tds])
                if isinstance(x, Space) != isinstance(y, Space): raise Conflict('cat of %s' % [t.dims for t in tds])
        dims, axes, cs = align(*probes)
        cs = np.broadcast_arrays(*cs)
        c = np.empty(cs[0].shape[:axis] + (len(cs),) + cs[0].shape[axis:], dtype=object)
        for i, x in enumerate(cs):
            ix = [slice(None)] * c.ndim; ix[axis] = i
            c[tuple(ix)] = x[()] if x.ndim == 0 else x
        return TD(tuple(dims[:axis]) + (len(cs),) + tuple(dims[axis:]), tuple(axes[:axis]) + (None,) + tuple(axes[axis:]), c, dt, tds[0].lib)
    # symbolic concatenation
    parts = []
    others = []
    for t in tds:
        parts.append(t.dims[axis])
    S = tm.Concat(parts)
    used = set(a for t in tds for j, a in enumerate(t.axes) if j != axis and a is not None)
    v = free_axis(S, used)
    other_dims = [tuple(d for j, d in enumerate(t.dims) if j != axis) for t in tds]
    for od in other_dims[1:]:
        if len(od) != len(other_dims[0]) or any((x is not y and x != y) for x, y in zip(od, other_dims[0])): raise Conflict('cat of %s' % [t.dims for t in tds])
    base_axes = tuple(a for j, a in enumerate(tds[0].axes) if j != axis)
    pcs = []
    for t in tds:
        t2 = t
        ax = tuple(a for j, a in enumerate(t.axes) if j != axis)
        b = {o: nn for o, nn in zip(ax, base_axes) if o is not None and o is not nn}
        d = t.dims[axis]
        if isinstance(d, Space):
            pv = t.axes[axis]; cells = np.take(t.cells, 0, axis=axis)
        else:
            pv = tm.var(tm.Base('int%d' % d))
            lst = [np.take(t.cells, i, axis=axis) for i in range(d)]
            cells = np.empty(np.shape(lst[0]), dtype=object)
            for i in np.ndindex(cells.shape): cells[i] = tm.sel(pv, [np.asarray(l, dtype=object)[i] if np.ndim(l) else l for l in lst])
        if not isinstance(cells, np.ndarray):
            z = np.empty((), dtype=object); z[()] = cells; cells = z
        pcs.append((pv, b, cells))
    out = np.empty(pcs[0][2].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = tm.case(v, [(pv, tm.let(b, c[i])) for pv, b, c in pcs])
    out = np.expand_dims(out, axis)
    od = list(other_dims[0]); od.insert(axis, S)
    oa = list(base_axes); oa.insert(axis, v)
    return TD(od, oa, out, dt, tds[0].lib)

def reshape(td, shape):
    """shape: list of int | Space | -1 | Term(length)"""
    src = list(td.dims)
    shape = list(shape)
    # int shortcut
    if not any(isinstance(d, Space) for d in src):
        if all(isinstance(s, int) for s in shape):
            return td.repl(dims=None, axes=None, cells=td.cells.reshape(shape))._fix()
    if len(src) == 1 and isinstance(src[0], Space) and src[0].kind == 'range' and len(shape) == 2 and isinstance(shape[1], int) and shape[1] > 0:
        # numbers 0, 1, ... in rows of k
        S, k = shape[0], shape[1]
        if not isinstance(S, (int, Space)) and isinstance(S, tm.Term) and S.op == 'len': S = S.args[0]
        if isinstance(S, Space) and tm.equal(tm.mul(tm.length(S), tm.num(k)), tm.length(src[0])):
            v = tm.var(S, 0); c = np.empty((1, k), dtype=object)
            for j in range(k): c[0, j] = tm.let({td.axes[0]: tm.add(tm.mul(tm.num(k), tm.idx(v)), tm.num(j))}, td.cells[0])
            return TD((S, k), (v, None), c, td.dtype, td.lib, td.root, td.loc, td.tags)
    # drop unit dims, compare
    want = [s for s in shape]
    tot = tm.ONE
    for d in src: tot = tm.mul(tot, tm.length(d))
    known = tm.ONE
    nneg = sum(1 for s in want if isinstance(s, int) and s == -1)
    groups = _group(src, want)
    if groups is None: raise Unsupported('reshape %s -> %s' % (src, want))
    # groups: list of (src index list, dst index list)
    t = td
    # build result by processing groups in order on a list of pieces
    cells = td.cells; 
    out_dims = []; out_axes = []
    pos = 0
    used = set(a for a in td.axes if a is not None)
    cur = cells
    for si, di in groups:
        k = len(si)
        sd = [src[i] for i in si]; sa = [td.axes[i] for i in si]
        dd = [want[i] for i in di]
        # cur has axes: [done output dims ...] [remaining source dims ...]
        if len(si) == 1 and len(di) == 1:
            out_dims.append(sd[0]); out_axes.append(sa[0]); pos += 1
            continue
        nonunit = [i for i, d in enumerate(sd) if isinstance(d, Space) or d != 1]
        dst_nonunit = [i for i, d in enumerate(dd) if not (isinstance(d, int) and d == 1)]
        if not any(isinstance(d, Space) for d in sd):
            tot_i = int(np.prod(sd)) if sd else 1
            dims_r = list(dd)
            if -1 in dims_r:
                o = int(np.prod([x for x in dims_r if x != -1])) or 1
                dims_r[dims_r.index(-1)] = tot_i // o
            cur = cur.reshape(cur.shape[:pos] + tuple(dims_r) + cur.shape[pos + k:])
            out_dims += dims_r; out_axes += [None] * len(dims_r); pos += len(dims_r)
            continue
        if len(nonunit) == 1 and len(dst_nonunit) <= 1 and isinstance(sd[nonunit[0]], Space) and (sd[nonunit[0]].kind != 'prod' or len(dst_nonunit) == 1):
            # only unit dims appear/disappear
            nd = [1] * len(di)
            tgt = dst_nonunit[0] if dst_nonunit else None
            if tgt is None: raise Unsupported('reshape')
            cur = cur.reshape(cur.shape[:pos] + (1,) * len(di) + cur.shape[pos + k:])
            for j in range(len(di)):
                if j == tgt: out_dims.append(sd[nonunit[0]]); out_axes.append(sa[nonunit[0]])
                else: out_dims.append(1); out_axes.append(None)
            pos += len(di)
            continue
        if len(nonunit) == 1 and isinstance(sd[nonunit[0]], Space) and sd[nonunit[0]].kind == 'prod':
            S = sd[nonunit[0]]; v = sa[nonunit[0]]
            ps = list(S.parents)
            newaxes = []; binds_items = []
            tail = cur.shape[pos + k:]
            head = cur.shape[:pos]
            ints = [(j, p) for j, p in enumerate(ps) if isinstance(p, int)]
            na = []
            for p in ps:
                if isinstance(p, Space):
                    a = free_axis(p, used); used.add(a); na.append(a)
                else: na.append(None)
            shp = tuple(p if isinstance(p, int) else 1 for p in ps)
            flat = cur.reshape(head + tail)
            new = np.empty(head + shp + tail, dtype=object)
            for ij in np.ndindex(shp):
                pt = tm.pair(S, [na[j] if isinstance(p, Space) else tm.num(ij[j]) for j, p in enumerate(ps)])
                for hi in np.ndindex(head):
                    for ti in np.ndindex(tail):
                        new[hi + ij + ti] = tm.let({v: pt}, flat[hi + ti])
            # insert unit dims where requested
            seq = []
            it = 0
            for d in dd:
                if isinstance(d, int) and d == 1 and not (it < len(ps) and ps[it] == 1): seq.append('u')
                else: seq.append(it); it += 1
            if it != len(ps) or not all(x == 'u' or (isinstance(d, int) and d == -1) or same_len(d, ps[x]) for d, x in zip(dd, seq)):
                r = _regroup(td, S, v, ps, dd, head, tail, flat, used) or _renumber(S, v, ps, dd, head, tail, flat, used)
                if r is None: raise Unsupported('reshape split %s %s' % (ps, dd))
                cur, od, oa = r
                out_dims += od; out_axes += oa; pos += len(od)
                continue
            fin = []
            for s in seq: fin.append(1 if s == 'u' else (shp[s]))
            cur = new.reshape(head + tuple(fin) + tail)
            for s in seq:
                if s == 'u': out_dims.append(1); out_axes.append(None)
                else: out_dims.append(ps[s]); out_axes.append(na[s])
            pos += len(seq)
            continue
        if len(dst_nonunit) == 1:
            # merge several dims into one product space
            parts = []
            for i in nonunit:
                parts.append(sd[i])
            flatparts = []
            for p in parts:
                if isinstance(p, Space) and p.kind == 'prod' : flatparts += list(p.parents)
                else: flatparts.append(p)
            S = tm.Prod(flatparts)
            v = free_axis(S, used); used.add(v)
            first = []; q = 0                      # position of each part among the flattened factors
            for p in parts:
                first.append(q); q += len(p.parents) if isinstance(p, Space) and p.kind == 'prod' else 1
            def point(j):
                p = parts[j]
                if isinstance(p, Space) and p.kind == 'prod':
                    return tm.pair(p, [tm.proj(first[j] + z, v, S) for z in range(len(p.parents))])
                return tm.proj(first[j], v, S)
            head = cur.shape[:pos]; tail = cur.shape[pos + k:]
            ishape = tuple(sd[i] if not isinstance(sd[i], Space) else 1 for i in nonunit)
            body = cur.reshape(head + ishape + tail)
            new = np.empty(head + (1,) + tail, dtype=object)
            spaces = [(j, sa[i]) for j, i in enumerate(nonunit) if isinstance(sd[i], Space)]
            intsj = [j for j, i in enumerate(nonunit) if not isinstance(sd[i], Space)]
            for hi in np.ndindex(head):
                for ti in np.ndindex(tail):
                    def rec(j, prefix):
                        if j == len(nonunit):
                            return body[hi + tuple(prefix) + ti]
                        if j in intsj:
                            return tm.sel(point(j), [rec(j + 1, prefix + [q]) for q in range(ishape[j])])
                        return rec(j + 1, prefix + [0])
                    t0 = rec(0, [])
                    # sel index terms mention v; the space vars are substituted outside
                    new[hi + (0,) + ti] = tm.let({a: point(j) for j, a in spaces}, t0)
            nd = [1] * len(di)
            cur = new.reshape(head + tuple(nd) + tail)
            tgt = dst_nonunit[0]
            for j in range(len(di)):
                if j == tgt: out_dims.append(S); out_axes.append(v)
                else: out_dims.append(1); out_axes.append(None)
            pos += len(di)
            continue
        raise Unsupported('reshape %s -> %s' % (src, want))
    return TD(out_dims, out_axes, cur, td.dtype, td.lib, td.root, td.loc, td.tags)

def _regroup(td, S, v, ps, dd, head, tail, flat, used):
    """split a product axis into target dims that each take one or more consecutive factors"""
    def length(xs):
        r = tm.ONE
        for x in xs: r = tm.mul(r, tm.length(x) if isinstance(x, Space) else tm.num(x))
        return r
    def nomlen(xs):
        r = tm.ONE
        for x in xs: r = tm.mul(r, nominal(x))
        return r
    groups = []; i = 0
    for n, d in enumerate(dd):
        if isinstance(d, int) and d == 1: groups.append(None); continue
        if isinstance(d, int) and d == -1:
            rest = [x for x in dd[n + 1:] if not (isinstance(x, int) and x == 1)]
            take = len(ps) - i - len(rest)          # remaining targets take one factor each
        else:
            want = _dimterm(d) if not isinstance(d, int) else tm.num(d)
            take = next((b for b in range(1, len(ps) - i + 1) if tm.equal(length(ps[i:i + b]), want) or tm.equal(nomlen(ps[i:i + b]), nominal(d))), 0)
        if take < 1: return None
        groups.append((i, i + take)); i += take
    if i != len(ps): return None
    od, oa = [], []; coords = [None] * len(ps); ishape = []
    for g in groups:
        if g is None: od.append(1); oa.append(None); ishape.append(1); continue
        a, b = g
        sub = ps[a:b]
        if b - a == 1 and isinstance(sub[0], int):
            od.append(sub[0]); oa.append(None); ishape.append(sub[0]); continue
        T = sub[0] if b - a == 1 else tm.Prod(sub)
        x = free_axis(T, used); used.add(x)
        od.append(T); oa.append(x); ishape.append(1)
        for j in range(a, b): coords[j] = x if b - a == 1 else tm.proj(j - a, x, T)
    new = np.empty(head + tuple(ishape) + tail, dtype=object)
    for ij in np.ndindex(*ishape):
        cs = list(coords)
        for g, q in zip(groups, ij):
            if g is not None and cs[g[0]] is None: cs[g[0]] = tm.num(q)
        pt = tm.pair(S, cs)
        for hi in np.ndindex(*head):
            for ti in np.ndindex(*tail): new[hi + ij + ti] = tm.let({v: pt}, flat[hi + ti])
    return new, od, oa

def _renumber(S, v, ps, dd, head, tail, flat, used):
    """split a product axis into dims that cut its factors differently: elements keep their position in memory"""
    if any(isinstance(d, int) and d == -1 for d in dd): return None
    ds = [d.args[0] if isinstance(d, Term) and d.op == 'len' else d for d in dd]
    if not all(isinstance(d, (int, Space)) for d in ds): return None
    ln = lambda x: tm.length(x) if isinstance(x, Space) else tm.num(x)
    a = b = tm.ONE
    for x in ps: a = tm.mul(a, ln(x))
    for x in ds: b = tm.mul(b, ln(x))
    if not tm.equal(a, b): return None
    od, oa = [], []
    for d in ds:
        if isinstance(d, Space):
            x = free_axis(d, used); used.add(x); od.append(d); oa.append(x)
        else: od.append(d); oa.append(None)
    ishape = tuple(1 if isinstance(d, Space) else d for d in ds)
    new = np.empty(head + ishape + tail, dtype=object)
    for ij in np.ndindex(*ishape):
        n = tm.ZERO
        for d, x, q in zip(ds, oa, ij): n = tm.add(tm.mul(n, ln(d)), tm.idx(x) if x is not None else tm.num(q))
        cs = []
        for p in reversed(ps):
            w = tm.fn('floor', tm.div(n, ln(p))); r = tm.sub(n, tm.mul(ln(p), w)); n = w
            cs.insert(0, tm.nth(p, r) if isinstance(p, Space) else r)
        pt = tm.pair(S, cs)
        for hi in np.ndindex(*head):
            for ti in np.ndindex(*tail): new[hi + ij + ti] = tm.let({v: pt}, flat[hi + ti])
    return new, od, oa


def _fix(self):
    return TD(self.cells.shape, (None,) * self.cells.ndim, self.cells, self.dtype, self.lib, self.root, self.loc, self.tags)

def _td_repl(self, **kw):
    d = dict(dims=self.dims, axes=self.axes, cells=self.cells, dtype=self.dtype, lib=self.lib, root=self.root, loc=self.loc, tags=self.tags)
    d.update(kw)
    if d['dims'] is None:
        d['dims'] = d['cells'].shape; d['axes'] = (None,) * d['cells'].ndim
    return TD(**d)
TD.repl = _td_repl
TD._fix = _fix

def _dimterm(d):
    return tm.length(d) if not isinstance(d, Term) else d

def nominal(d):
    """length of a dimension, a slice counting as long as its bounds say (a reshape succeeds only then)"""
    if isinstance(d, Space) and d.kind == 'slice':
        lo, hi = d.info
        return tm.sub(hi if hi is not None else tm.length(d.parents[0]), lo if lo is not None else tm.ZERO)
    if isinstance(d, Space) and d.kind == 'prod':
        r = tm.ONE
        for x in d.parents: r = tm.mul(r, nominal(x))
        return r
    return _dimterm(d)

def same_len(a, b):
    return a is b or tm.equal(_dimterm(a), _dimterm(b)) or tm.equal(nominal(a), nominal(b))

def _group(src, want):
    """group source and destination dims into blocks with equal element count"""
    def prod(xs):
        r = tm.ONE
        for x in xs: r = tm.mul(r, _dimterm(x))
        return r
    def prodn(xs):
        r = tm.ONE
        for x in xs: r = tm.mul(r, nominal(x))
        return r
    if sum(1 for w in want if isinstance(w, int) and w == -1) > 1: return None
    wneg = [i for i, w in enumerate(want) if isinstance(w, int) and w == -1]
    def match(s, w):
        """groups for sequences without -1"""
        groups = []
        i = j = 0
        while i < len(s) or j < len(w):
            best = None
            for a in range(0, len(s) - i + 1):
                for b in range(0, len(w) - j + 1):
                    if a + b == 0: continue
                    if a == 0 and not all(isinstance(x, int) and x == 1 for x in w[j:j + b]): continue
                    if b == 0 and not all(isinstance(x, int) and x == 1 for x in s[i:i + a]): continue
                    if tm.equal(prod(s[i:i + a]), prod(w[j:j + b])) or tm.equal(prodn(s[i:i + a]), prodn(w[j:j + b])):
                        if best is None or a + b < best[0] + best[1]: best = (a, b)
                if best is not None and best[0] <= a: break
            if best is None: return None
            a, b = best
            groups.append((list(range(i, i + a)), list(range(j, j + b))))
            i += a; j += b
        return groups
    if not wneg:
        return match(src, want)
    k = wneg[0]
    pre, post = want[:k], want[k + 1:]
    # match prefix greedily from the left and suffix from the right
    for a in range(len(src) + 1):
        for b in range(len(src), a - 1, -1):
            if tm.equal(prod(src[:a]), prod(pre)) and tm.equal(prod(src[b:]), prod(post)) and (len(pre) or a == 0) and (len(post) or b == len(src)):
                g1 = match(src[:a], pre); g2 = match(src[b:], post)
                if g1 is None or g2 is None: continue
                off = lambda g, s0, d0: [([x + s0 for x in p], [y + d0 for y in q]) for p, q in g]
                return g1 + [(list(range(a, b)), [k])] + off(g2, b, k + 1)
    # the -1 block also swallows part of a source dim: whole-block fallback
    return [(list(range(len(src))), list(range(len(want))))]
