"""Indexing semantics of tensors/arrays over symbolic index spaces."""
import numpy as np
from . import terms as tm, vals as V
from .terms import Space
from .vals import *


def sym_dim(t):
    """the dimension (int or Space) of length t"""
    if tm.isnum(t): return int(t.args[0])
    if t.op == 'len': return t.args[0]
    for sp in list(Space._tab.values()):
        if sp.kind in ('concat', 'prod', 'perm', 'range') and tm.length(sp) is t:
            return sp.parents[0] if sp.kind == 'perm' else sp
    for sp in list(Space._tab.values()):
        if sp.kind in ('filter', 'base', 'slice', 'range', 'concat', 'prod', 'opaque') and not sp.nm.startswith(('mu', 'int')):
            if tm.equal(tm.length(sp), t): return sp
    return tm.Range(t)


def dim_term(d):
    return d if isinstance(d, int) else tm.length(d)


def as_dim(it, v):
    v = it.simp(v)
    if isinstance(v, bool): raise Unsupported('dim')
    if isinstance(v, int): return v
    if isinstance(v, float) and v == int(v): return int(v)
    if isinstance(v, Sym): return sym_dim(v.t)
    if isinstance(v, T) and it.td(v).ndim == 0: return sym_dim(it.td(v).cells[()])
    raise Unsupported('symbolic dimension %r' % (v,))


def shape_list(it, args):
    if len(args) == 1:
        a = it.simp(args[0])
        if isinstance(a, (tuple, Lst)) :
            l = it.iter_list(a)
            if l is None: raise Unsupported('shape')
            args = l
    return [as_dim(it, a) for a in args]


def int_of(it, v):
    v = it.simp(v)
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, T):
        td = it.td(v)
        if td.ndim == 0 and tm.isnum(td.cells[()]): return int(td.cells[()].args[0])
    if isinstance(v, Sym) and tm.isnum(v.t): return int(v.t.args[0])
    return None


def term_of(it, v):
    v = it.simp(v)
    if isinstance(v, T):
        td = it.td(v)
        if td.ndim == 0: return td.cells[()]
        raise Unsupported('index')
    if isinstance(v, (int, float, Sym)): return it.as_term(v)
    raise Unsupported('index %r' % (v,))


def norm_key(it, td, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [it.simp(x) for x in ks]
    out = []
    for x in ks:
        if isinstance(x, Lst):
            items = it.items(x)
            x = it.newT(it.list_td(x, td.lib)) if items else it.newT(TD((0,), (None,), np.empty((0,), dtype=object), 'i64', td.lib))
        if isinstance(x, Opq):
            r = it.x.opq_to_td(it, x)
            if r is None: raise Unsupported('opaque index')
            x = it.newT(r)
        if isinstance(x, Phi): raise Unsupported('index choice')
        if isinstance(x, tuple): 
            x = it.newT(it.list_td(x, td.lib))
        if isinstance(x, T):
            xd = it.td(x)
            if xd.ndim == 0 and xd.dtype != 'b':
                x = ('i', xd.cells[()])
            elif xd.ndim == 0: raise Unsupported('scalar mask')
        elif isinstance(x, bool): raise Unsupported('bool index')
        elif isinstance(x, int): x = ('i', tm.num(x))
        elif isinstance(x, Sym): x = ('i', x.t)
        out.append(x)
    def used(x):
        if x is None or x is Ellipsis: return 0
        if isinstance(x, T) and it.td(x).dtype == 'b': return it.td(x).ndim
        return 1
    n = sum(used(x) for x in out)
    if n > td.ndim: raise Conflict('too many indices (%d) for %d dims' % (n, td.ndim))
    if Ellipsis in [x for x in out if not isinstance(x, (T, tuple, slice))]:
        i = next(j for j, x in enumerate(out) if x is Ellipsis)
        out = out[:i] + [slice(None)] * (td.ndim - n) + out[i + 1:]
    else:
        out += [slice(None)] * (td.ndim - n)
    return out


def full(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def take_int(td, j, t):
    """index dim j with scalar term t (drops the dim)"""
    d = td.dims[j]
    if isinstance(d, Space):
        v = td.axes[j]
        if tm.isnum(t):
            i = int(t.args[0])
            if d.kind == 'concat':      # 0th / last element of a concatenation with fixed part
                pass
            t = tm.nth(d, t)
        return V.squeeze_exact(td.repl(cells=td.map(lambda c: tm.let({v: t}, c))), j)
    if tm.isnum(t):
        i = int(t.args[0])
        if i < 0: i += d
        if not 0 <= i < d: raise Conflict('index %d out of bounds for size %d' % (i, d))
        c = np.take(td.cells, i, axis=j)
    else:
        parts = [np.take(td.cells, i, axis=j) for i in range(d)]
        if not parts: raise Conflict('index into empty dimension')
        c = np.empty(np.shape(parts[0]), dtype=object)
        for ix in np.ndindex(c.shape): c[ix] = tm.sel(t, [p[ix] if np.ndim(p) else p for p in parts])
    if not isinstance(c, np.ndarray):
        z = np.empty((), dtype=object); z[()] = c; c = z
    return td.repl(dims=td.dims[:j] + td.dims[j + 1:], axes=td.axes[:j] + td.axes[j + 1:], cells=c)


def slice_space(it, d, s):
    """space of d[s] and map (new var -> old point)"""
    lo = it.simp(s.start); hi = it.simp(s.stop); st = it.simp(s.step)
    if st is not None and int_of(it, st) not in (1, -1): raise Unsupported('strided slice')
    if st is not None and int_of(it, st) == -1:
        if lo is not None or hi is not None: raise Unsupported('reversed slice')
        return tm.Perm(d, 'reversed')
    lo_t = None if lo is None or int_of(it, lo) == 0 else term_of(it, lo)
    hi_t = None if hi is None else term_of(it, hi)
    if hi_t is not None and not tm.isnum(hi_t) and tm.equal(hi_t, tm.length(d)): hi_t = None
    if lo_t is None and hi_t is None: return d
    return tm.Slice(d, lo_t, hi_t)


def slice_dim(it, td, j, s):
    d = td.dims[j]
    if full(s): return td
    if not isinstance(d, Space):
        b = [None if x is None else int_of(it, x) for x in (s.start, s.stop, s.step)]
        for x, y in zip((s.start, s.stop, s.step), b):
            if x is not None and y is None: raise Unsupported('symbolic slice of fixed dim')
        r = range(*slice(*b).indices(d))
        return td.repl(dims=td.dims[:j] + (len(r),) + td.dims[j + 1:], cells=np.take(td.cells, list(r), axis=j) if len(r) else np.empty(td.cells.shape[:j] + (0,) + td.cells.shape[j + 1:], dtype=object))
    F = slice_space(it, d, s)
    if F is d: return td
    f = V.free_axis(F, set(a for a in td.axes if a is not None))
    v = td.axes[j]
    return td.repl(dims=td.dims[:j] + (F,) + td.dims[j + 1:], axes=td.axes[:j] + (f,) + td.axes[j + 1:],
                   cells=td.map(lambda c: tm.let({v: tm.up(F, 0, f)}, c)))


def mask_filter(it, mtd):
    """Filter space of a boolean tensor -> (space, [point terms per dim as function of its var])"""
    if any(not isinstance(d, Space) for d in mtd.dims):
        # fixed dims: put into a product with selected cells
        raise Unsupported('mask over fixed dims')
    parents = list(mtd.dims)
    canon = [tm.var(p, 0 if parents.index(p) == k else k) for k, p in enumerate(parents)]
    body = tm.let(dict(zip(mtd.axes, canon)), mtd.flat()[0])
    return tm.Filter(tuple(parents), body)


def t_getitem(it, T_, k):
    td = it.td(T_)
    ks = norm_key(it, td, k)
    adv = [x for x in ks if isinstance(x, T)]
    if not adv:
        r = td; j = 0
        for x in ks:
            if x is None: r = V.expand(r, j); j += 1
            elif isinstance(x, slice): r = slice_dim(it, r, j, x); j += 1
            else: r = take_int(r, j, x[1])
        t = it.mkT(r, view_of=T_)
        it.viewinfo[t.oid] = (T_, tuple(ks), td)
        return t
    # advanced
    r = td
    # first apply the basic parts right-to-left on their own dims, remembering advanced positions
    pos = 0; plan = []
    for x in ks:
        if x is None: plan.append((x, None)); continue
        n = it.td(x).ndim if isinstance(x, T) and it.td(x).dtype == 'b' else 1
        plan.append((x, list(range(pos, pos + n)))); pos += n
    # scalar ints together with advanced indices broadcast as advanced, treat as advanced 0-dim
    idx = []      # per advanced source dim: TD of index terms
    first = None; contiguous = True; last = None
    dimspec = []  # output template: ('adv',) | ('dim', j) | None
    masks = [x for x in ks if isinstance(x, T) and it.td(x).dtype == 'b']
    for x, dims in plan:
        if x is None: dimspec.append(('new',)); continue
        if isinstance(x, slice): dimspec.append(('dim', dims[0], x)); continue
        if isinstance(x, tuple):
            idx.append((dims[0], V.scalar(x[1], 'i64', td.lib))); dimspec.append(('adv',)); continue
        xd = it.td(x)
        if xd.dtype == 'b':
            for dd, md in zip(dims, xd.dims):
                src = td.dims[dd]
                if src is not md and src != md:
                    if isinstance(src, Space) or isinstance(md, Space):
                        raise Conflict('mask over %s applied to dimension %s' % (md, src))
                    raise Conflict('mask shape %s for dimension %s' % (md, src))
            if not any(isinstance(d, Space) for d in xd.dims):
                cs = xd.flat()
                if all(c in (tm.TRUE, tm.FALSE) for c in cs):
                    pts = [i for i in np.ndindex(xd.cells.shape) if xd.cells[i] is tm.TRUE]
                    for q, dd in enumerate(dims):
                        idx.append((dd, V.const_td([p[q] for p in pts], 'i64', td.lib)))
                    dimspec.append(('adv',)); continue
                if xd.ndim != 1: raise Unsupported('symbolic mask over fixed dims')
                R = tm.Range(tm.num(xd.dims[0])); rv = tm.var(R, 0)
                F = tm.Filter((R,), tm.sel(rv, cs))
                f = tm.var(F, 0)
                c = np.empty((1,), dtype=object); c[0] = tm._mk('up', (F, 0, f), unk=True)      # value numbering does not know which cells these are
                idx.append((dims[0], TD((F,), (f,), c, 'i64', td.lib)))
                dimspec.append(('adv',)); continue
            F = mask_filter(it, xd)
            f = tm.var(F, 0)
            for q, dd in enumerate(dims):
                c = np.empty((1,), dtype=object); c[0] = tm.up(F, q, f)
                idx.append((dd, TD((F,), (f,), c, 'i64', td.lib)))
            dimspec.append(('adv',))
        else:
            idx.append((dims[0], xd)); dimspec.append(('adv',))
    advpos = [i for i, s in enumerate(dimspec) if s[0] == 'adv']
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    # basic slices
    keep = []
    kd = {}
    for s in dimspec:
        if s[0] == 'dim':
            r = slice_dim(it, r, s[1], s[2])
    keepaxes = set()
    advdims = [d for d, _ in idx]
    for j, a in enumerate(r.axes):
        if j not in advdims and a is not None: keepaxes.add(a)
    dims_b, axes_b, cells_b = V.align(*[x for _, x in idx])
    # rename index axes that clash with kept axes
    ren = {}; used = set(keepaxes) | set(a for a in axes_b if a is not None)
    newaxes = []
    seen = set()
    for d, a in zip(dims_b, axes_b):
        if a is not None and (a in keepaxes or a in seen):
            na = V.free_axis(d, used); used.add(na); ren[a] = na; newaxes.append(na)
        else: newaxes.append(a)
        if a is not None: seen.add(a)
    cells_b = np.broadcast_arrays(*cells_b) if len(cells_b) > 1 else list(cells_b)
    if ren: cells_b = [_map(c, lambda t: tm.let(ren, t)) for c in cells_b]
    # rename the axis variables of the source kept dims? they stay; simultaneous substitution for the indexed ones
    keepdims = [j for j in range(r.ndim) if j not in advdims]
    # move advanced source dims to the front
    src = V.permute(r, advdims + keepdims)
    na = len(advdims)
    bshape = cells_b[0].shape
    kshape = tuple(src.cells.shape[na:])
    out = np.empty(bshape + kshape, dtype=object)
    for bi in np.ndindex(bshape):
        cur = src
        binds = {}
        sub_ = src.cells
        # fixed dims: select; space dims: substitution
        selterms = []
        for q in range(na):
            t = cells_b[q][bi]
            d = src.dims[q]
            if isinstance(d, Space):
                if tm.isnum(t): t = tm.nth(d, t)
                binds[src.axes[q]] = t; selterms.append(None)
            else: selterms.append((t, d))
        for ki in np.ndindex(kshape):
            def rec(q, pre):
                if q == na:
                    c = sub_[tuple(pre) + ki]
                    return tm.let(binds, c) if binds else c
                if selterms[q] is None: return rec(q + 1, pre + [0])
                t, d = selterms[q]
                if tm.isnum(t):
                    i = int(t.args[0]); i = i + d if i < 0 else i
                    if not 0 <= i < d: raise Conflict('index %d out of bounds for size %d' % (i, d))
                    return rec(q + 1, pre + [i])
                return tm.sel(t, [rec(q + 1, pre + [i]) for i in range(d)])
            out[bi + ki] = rec(0, [])
    if not bshape and not kshape:
        pass
    # assemble output dims
    nb = len(dims_b)
    odims = list(dims_b) + [r.dims[j] for j in keepdims]
    oaxes = newaxes + [r.axes[j] for j in keepdims]
    res = TD(odims, oaxes, out, td.dtype, td.lib)
    # position
    if contiguous:
        before = sum(1 for s in dimspec[:advpos[0]] if s[0] == 'dim')
    else: before = 0
    order = list(range(nb, nb + before)) + list(range(nb)) + list(range(nb + before, nb + len(keepdims)))
    res = V.permute(res, order)
    # new axes
    j = 0; advdone = False
    if any(s[0] == 'new' for s in dimspec):
        if not contiguous: raise Unsupported('newaxis with split advanced index')
        for s in dimspec:
            if s[0] == 'new': res = V.expand(res, j); j += 1
            elif s[0] == 'dim': j += 1
            elif not advdone: j += nb; advdone = True
    return it.newT(res)


def _map(c, f):
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape): o[i] = f(c[i])
    return o


def is_scatter_key(it, td, k):
    """does `x[k] += v` address data-dependent (possibly repeated) cells?"""
    ks = list(k) if isinstance(k, tuple) else [k]
    for x in ks:
        x = it.simp(x)
        if isinstance(x, slice):
            for b in (x.start, x.stop):
                if b is not None and int_of(it, b) is None: return True
        elif isinstance(x, (Sym, T, Lst)):
            if isinstance(x, T) and it.td(x).dtype == 'b': continue
            if int_of(it, x) is not None: continue
            t = x.t if isinstance(x, Sym) else it.td(x).cells[()] if isinstance(x, T) and it.td(x).ndim == 0 else None
            if t is not None and t.op == 'var' and t.args[1] >= 100: continue      # loop variable: pointwise
            if t is not None and t.op == 'let' : pass
            return True
    return False


def t_setitem(it, td, k, v, T_=None):
    """content of td after td[k] = v"""
    ks = norm_key(it, td, k)
    if any(x is None for x in ks): raise Unsupported('newaxis store')
    val = it.to_td(v, td.lib)
    conv = (lambda c: tm.fn('trunc', c)) if td.dtype in ('i32', 'i64') and val.dtype not in ('i32', 'i64', 'b') else (lambda c: c)
    val = val.repl(cells=val.map(conv))
    adv = [x for x in ks if isinstance(x, T)]
    if not adv:
        # list of (dim, selector); target sub-shape
        tdims = []; taxes = []
        sel = []         # per dim: ('int', i) | ('pt', term) | ('range', list) | ('all',) | ('slice', F)
        tags = tuple(td.tags)
        for j, x in enumerate(ks):
            d = td.dims[j]
            if isinstance(x, slice):
                if isinstance(d, Space):
                    F = slice_space(it, d, x)
                    if F is d: sel.append(('all',)); tdims.append(d); taxes.append(td.axes[j])
                    else:
                        f = V.free_axis(F, set(a for a in td.axes if a is not None))
                        sel.append(('slice', F, f)); tdims.append(F); taxes.append(f)
                else:
                    b = [None if y is None else int_of(it, y) for y in (x.start, x.stop, x.step)]
                    if any(y is not None and z is None for y, z in zip((x.start, x.stop, x.step), b)): raise Unsupported('symbolic slice store')
                    r = list(range(*slice(*b).indices(d)))
                    sel.append(('range', r)); tdims.append(len(r)); taxes.append(None)
            else:
                t = x[1]
                if isinstance(d, Space):
                    sel.append(('pt', t))
                else:
                    if not tm.isnum(t):
                        sel.append(('psel', t))
                    else:
                        i = int(t.args[0]); i = i + d if i < 0 else i
                        if not 0 <= i < d: raise Conflict('store index %d out of bounds for size %d' % (i, d))
                        sel.append(('int', i))
        # broadcast value to target dims
        probe = TD(tdims, taxes, _full([x if not isinstance(x, Space) else 1 for x in tdims]), td.dtype, td.lib)
        if val.ndim > len(tdims):
            lead = val.ndim - len(tdims)
            for _ in range(lead):
                if val.dims[0] != 1: raise Conflict('store of shape %s into %s' % (val.dims, tdims))
                val = V.squeeze_exact(val, 0)
        for a, b in zip(reversed(val.dims), reversed(tdims)):
            if a is b or a == b or a == 1: continue
            if isinstance(a, Space) and isinstance(b, Space) and is_scatter_key(it, td, k): raise Unsupported('store of a box of another index space')
            raise Conflict('store of shape %s into %s' % (val.dims, tdims))
        dd, aa, cs = V.align(probe, val)
        ren = {x: y for x, y in zip(aa, taxes) if x is not None and x is not y}
        vc = np.broadcast_to(cs[1], cs[0].shape)
        out = td.cells.copy()
        slices = [(j, s) for j, s in enumerate(sel) if s[0] == 'slice']
        pts = [(j, s[1]) for j, s in enumerate(sel) if s[0] == 'pt']
        pw = {}
        guard = tm.TRUE
        for j, t in pts:
            a = td.axes[j]
            lv = t
            if t.op == 'var' and t.args[1] >= 100 and t.args[0] is td.dims[j]:
                pw[t] = a; tags = tags + (('pw', t, a),)
            else:
                raise Unsupported('point store at %s' % tm.show(t, 3))
        sl = {}
        for j, s in slices: sl[s[2]] = tm.down(s[1], td.axes[j])
        for full_i in np.ndindex(out.shape):
            ok = True; ti = []; g = tm.TRUE
            for j, s in enumerate(sel):
                if s[0] == 'int':
                    if full_i[j] != s[1]: ok = False; break
                elif s[0] == 'range':
                    if full_i[j] not in s[1]: ok = False; break
                    ti.append(s[1].index(full_i[j]))
                elif s[0] == 'psel':
                    g = tm.and_(g, tm.eq(s[1], tm.num(full_i[j])))
                elif s[0] in ('all', 'slice'): ti.append(0)
            if not ok: continue
            c = vc[tuple(ti)]
            b = dict(ren)
            if b: c = tm.let(b, c)
            if pw: c = tm.let(pw, c)
            if sl:
                c = tm.let(sl, c)
                for j, s in slices: g = tm.and_(g, tm.batom('in%d' % s[1].uid, td.axes[j]))
            out[full_i] = tm.ite(g, c, out[full_i])
        return td.repl(cells=out, tags=tags)
    # advanced store
    if len(adv) == 1 and it.td(adv[0]).dtype == 'b':
        m = it.td(adv[0])
        p = next(i for i, x in enumerate(ks) if isinstance(x, T))
        others = [x for x in ks if not isinstance(x, T)]
        for x in others:
            if not full(x) and not (isinstance(x, tuple) and tm.isnum(x[1])): raise Unsupported('mask store with partial key')
        j0 = sum(1 for x in ks[:p])
        mdims = list(range(j0, j0 + m.ndim))
        for dd, md in zip(mdims, m.dims):
            src = td.dims[dd]
            if src is not md and src != md: raise Conflict('mask over %s stored into dimension %s' % (md, src))
        # full-rank mask tensor
        mm = m
        for _ in range(j0): mm = V.expand(mm, 0)
        for _ in range(td.ndim - mm.ndim): mm = V.expand(mm, mm.ndim)
        if val.size_one() and val.ndim == 0:
            vv = val
        else:
            F = mask_filter(it, m)
            # value dims: [pre dims], F, [post dims]
            if any(not full(x) for x in others): raise Unsupported('mask store')
            axpos = [q for q, d in enumerate(val.dims) if d is F]
            if not axpos: 
                if F not in val.dims and len(val.dims) <= td.ndim - j0 - m.ndim: vv = val
                else: raise Conflict('mask store of %s values into %s selected cells' % (val.dims, F))
            else:
                q = axpos[0]
                f = val.axes[q]
                if m.ndim != 1: raise Unsupported('mask store of tensor')
                cells = val.map(lambda c: tm.let({f: tm.down(F, td.axes[mdims[0]])}, c))
                vv = val.repl(dims=val.dims[:q] + (td.dims[mdims[0]],) + val.dims[q + 1:], axes=val.axes[:q] + (td.axes[mdims[0]],) + val.axes[q + 1:], cells=cells)
        extra = tm.TRUE
        r = V.elementwise(lambda mk, o, n: tm.ite(mk, n, o), mm, td, vv)
        if len(r.dims) != td.ndim: raise Conflict('mask store changes the shape')
        r = V.rename(r, td.axes)
        cells = r.cells
        ints = [(i if i < p else i + m.ndim - 1, x) for i, x in enumerate(ks) if isinstance(x, tuple)]
        if ints:
            out = td.cells.copy()
            for fi in np.ndindex(out.shape):
                if all((int(x[1].args[0]) % td.dims[j]) == fi[j] for j, x in ints): out[fi] = cells[fi]
            cells = out
        return td.repl(cells=np.broadcast_to(cells, td.cells.shape).copy())
    if len(adv) == 1 and it.td(adv[0]).ndim == 1:
        ix = it.td(adv[0])
        p = next(i for i, x in enumerate(ks) if isinstance(x, T))
        d = td.dims[p]
        if any(not full(x) for i, x in enumerate(ks) if i != p): raise Unsupported('advanced store with partial key')
        idim = ix.dims[0]
        if isinstance(idim, Space) and isinstance(d, Space):
            t = ix.flat()[0]; f = ix.axes[0]
            if t.op == 'up' and t.args[0].kind == 'filter' and t.args[2] is f and t.args[0].parents == (d,) and idim is t.args[0]:
                F = t.args[0]; a = td.axes[p]
                mask = tm.let({tm.var(d, 0): a}, F.mask)
                return _scatter_all(td, val, p, idim, f, mask, tm.down(F, a))
            if t is f and idim is d:
                return _scatter_all(td, val, p, d, f, tm.TRUE, td.axes[p])
            raise Unsupported('scatter store')
        if not isinstance(idim, Space) and not isinstance(d, Space):
            return _fixed_scatter(td, val, p, ix)
    raise Unsupported('advanced store')


def _fixed_scatter(td, val, p, ix):
    """x[..., [i0, i1, ...], ...] = val with literal indices"""
    d = td.dims[p]; pos = []
    for t in ix.flat():
        if not tm.isnum(t): raise Unsupported('fixed scatter at symbolic positions')
        k = int(t.args[0]); k = k + d if k < 0 else k
        if not 0 <= k < d: raise Conflict('store index %d out of bounds for size %d' % (k, d))
        pos.append(k)
    tdims = td.dims[:p] + (len(pos),) + td.dims[p + 1:]
    for _ in range(val.ndim - len(tdims)):
        if val.dims[0] != 1: raise Conflict('store of shape %s into %s' % (val.dims, tdims))
        val = V.squeeze_exact(val, 0)
    for a, b in zip(reversed(val.dims), reversed(tdims)):
        if a is b or a == b or a == 1: continue
        raise Conflict('store of shape %s into %s' % (val.dims, tdims))
    probe = TD(tdims, td.axes, _full([1 if isinstance(x, Space) else x for x in tdims]), td.dtype, td.lib)
    dd, aa, cs = V.align(probe, val)
    ren = {x: y for x, y in zip(aa, td.axes) if x is not None and x is not y}
    vc = np.broadcast_to(cs[1], cs[0].shape)
    out = td.cells.copy()
    for i in np.ndindex(vc.shape):
        c = vc[i]
        if ren: c = tm.let(ren, c)
        out[i[:p] + (pos[i[p]],) + i[p + 1:]] = c
    return td.repl(cells=out)


def _scatter_all(td, val, p, idim, f, mask, point):
    """x[idx] = val where idx enumerates the points with `mask` (inverse map `point`)"""
    # target dims of val: td dims with p replaced by idim
    tdims = td.dims[:p] + (idim,) + td.dims[p + 1:]
    used = set(a for a in td.axes if a is not None)
    fa = f if f not in used else V.free_axis(idim, used)
    taxes = td.axes[:p] + (fa,) + td.axes[p + 1:]
    for a, b in zip(reversed(val.dims), reversed(tdims)):
        if a is b or a == b or a == 1: continue
        raise Conflict('store of shape %s into %s' % (val.dims, tdims))
    probe = TD(tdims, taxes, _full([x if not isinstance(x, Space) else 1 for x in tdims]), td.dtype, td.lib)
    dd, aa, cs = V.align(probe, val)
    ren = {x: y for x, y in zip(aa, taxes) if x is not None and x is not y}
    vc = np.broadcast_to(cs[1], cs[0].shape)
    out = td.cells.copy()
    for i in np.ndindex(out.shape):
        c = vc[i]
        if ren: c = tm.let(ren, c)
        out[i] = tm.ite(mask, tm.let({fa: point}, c), out[i])
    return td.repl(cells=out)


def _full(shape):
    c = np.empty(tuple(shape), dtype=object)
    for i in np.ndindex(c.shape): c[i] = tm.ZERO
    return c
