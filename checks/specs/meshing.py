"""C35 (meshes generated from level sets and for cylindrical samples)."""
from ..lib import *
from engine.vals import *
from .templates import Random, cloud, value
from .formulas import shaped
from .detect import concrete_values
from .refusals import truth
from ..lib import expand
import itertools, math


def body_of(t):
    """(u(level, ...) node, binders from outside in)"""
    binds = []
    while t.op == 'let':
        binds.append({t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}); t = t.args[0]
    return t, binds


def under(binds, t):
    for b in reversed(binds): t = tm.let(b, t)
    return t


class Builder:
    """the volume mesher: records what it is given, returns its own nodes and tetrahedra"""
    def __init__(self, w, n=3):
        self.w, self.it = w, w.it
        self.pts = cloud(w, n); self.n = n
        inner = w.it.exts['meshpy.tet.build']
        self.builds = []
        def build(it, args, kw):
            self.builds.append((args, kw, it.loc))
            return inner(it, args, kw)
        w.it.exts['meshpy.tet.build'] = build

    def given(self, what):
        return [e for e in self.it.events if e.kind == 'extmethod' and e.data['name'] == what]

    def limit(self):
        a, kw, loc = self.builds[-1]
        v = kw.get('max_volume', a[5] if len(a) > 5 else None)
        return None if v is None else self.it.as_term(self.it.simp(v))


def returned(c, w, m, b):
    """the sample mesh consists of the nodes and tetrahedra of the mesher"""
    it = w.it
    v = it.to_td(it.simp(w.attr(m, 'coord')))
    if shaped(c, 'nodes of the mesh', v, (b.n + 3, 3)):
        for i in range(b.n + 3):
            for j in range(3): c.eq('node %d is that of the mesher [%s]' % (i, 'xyz'[j]), v.cells[i, j], E(b.pts.cells[i, j]))
    v = it.to_td(it.simp(w.attr(m, 'enod')))
    if shaped(c, 'tetrahedra of the mesh', v, (b.n, 4)):
        for i in range(b.n):
            for j in range(4): c.eq('tetrahedron %d is that of the mesher [%d]' % (i, j), v.cells[i, j], num(i + j))


@check('C35')
def c35(c):
    with c.scope('level set'):
        w = World(); it = w.it; b = Builder(w); calls, marched = [], []
        def level(it, a, k):
            x = it.to_td(it.simp(a[0] if a else list(k.values())[0]))
            calls.append((x, it.loc))
            return Sym(tm.uf('level', *x.cells), 'float') if x.cells.shape == (3,) else it.unk('level set of %s' % (x.dims,))
        it.exts['user.level'] = level
        NV, NF = Base('surface_vertices'), Base('surface_faces')
        R, cell = E(atom('bounding_radius', pos=True)), E(atom('cell_circumradius', pos=True))
        def march(it, a, k):
            a = [it.simp(x) for x in a]
            g = lambda i, n, d: a[i] if len(a) > i else it.simp(k.get(n, d))
            sp = g(2, 'spacing', None)
            sp = [num(1)] * 3 if sp is None else [it.as_term(it.simp(x)) for x in it.iter_list(sp)] if it.iter_list(sp) is not None else list(it.to_td(sp).cells)
            marched.append(dict(volume=it.to_td(a[0] if a else it.simp(k['volume'])), level=g(1, 'level', None), spacing=sp, loc=it.loc,
                                rest=[x for x in k if x not in ('volume', 'level', 'spacing', 'allow_degenerate')] + a[3:]))
            v = tensor('surface', (NV, 3)); x = v.axes[0]
            # surface vertices at grid corners: any affine map of the vertices is fixed by them
            cells = v.cells.copy()
            for i in range(3): cells[0, i] = (E(tm.iatom('corner_%d' % i, x)) * E(sp[i])).t
            v = TD(v.dims, v.axes, cells, 'f32', 'numpy')
            return it.mkL([it.newT(v), it.newT(tensor('face', (NF, 3), 'i32')), it.newT(tensor('vertex_normal', (NV, 3), 'f32')), it.newT(tensor('vertex_value', (NV,), 'f32'))])
        it.exts['skimage.measure.marching_cubes'] = march
        e0 = len(it.events)
        m = it.simp(w.run(w.attr(w.cls('mesh', 'TetraMesh'), 'generate_mesh_from_levelset'), Ext('user.level'), Sym(R.t, 'float'), Sym(cell.t, 'float')))
        c.use(w)
        if c.holds('one surface is extracted', len(marched) == 1, marched[0]['loc'] if marched else '', '%d' % len(marched), unk=not marched) and \
           c.holds('one volume mesh is built', len(b.builds) == 1, b.builds[0][2] if b.builds else '', '%d' % len(b.builds), unk=not b.builds):
            q = marched[0]; vol = q['volume']
            if q['rest']: c.undecided('surface', 'further arguments %s' % q['rest'][:3])
            c.eq('the surface is taken at level zero', num(0) if q['level'] is None else it.as_term(q['level']), num(0), where=q['loc'])
            if vol.cells.shape != (1, 1, 1) or None in vol.axes: c.undecided('grid', 'a volume of %s' % (vol.dims,))
            else:
                t, binds = body_of(vol.cells[0, 0, 0])
                if t.op != 'u' or t.args[0] != 'level': c.undecided('grid', 'values are %s' % tm.show(t)[:80])
                else:
                    P = [E(under(binds, x)) for x in t.args[1:]]
                    lo = [p.at({a: E(0) for a in vol.axes}) for p in P]
                    up = [p.at({a: E(1) for a in vol.axes}) for p in P]
                    for i in range(3):
                        c.eq_any('the grid starts at one side of the bounding box [%s]' % 'xyz'[i], lo[i], [(-R).t, R.t], where=q['loc'])
                        c.eq('the grid ends at the other side of the bounding box [%s]' % 'xyz'[i], (up[i] - lo[i]) * (E(tm.length(vol.dims[i])) - 1), -2 * lo[i], where=q['loc'])
                        c.eq('the spacing of the surface is that of the grid, along axis %d' % i, absv(E(q['spacing'][i])) * (E(tm.length(vol.dims[i])) - 1), 2 * R, where=q['loc'])
                        fine(c, 'cells are no coarser than asked for, along axis %d' % i, absv(E(q['spacing'][i])), cell, q['loc'])
                    pe = b.given('set_points')
                    if c.holds('the surface points are given to the mesher once', len(pe) == 1, pe[0].loc if pe else '', '%d times' % len(pe), unk=not pe):
                        v = it.to_td(it.simp(pe[0].data['args'][0]))
                        if shaped(c, 'surface points', v, (NV, 3)):
                            at = {a: E(tm.iatom('corner_%d' % i, v.axes[0])) for i, a in enumerate(vol.axes)}
                            for i in range(3): c.eq('surface points lie where the level set was evaluated [%s]' % 'xyz'[i], v.cells[0, i], P[i].at(at), where=pe[0].loc)
            fe = b.given('set_facets')
            if c.holds('the surface triangles are given to the mesher once', len(fe) == 1, fe[0].loc if fe else '', '%d times' % len(fe), unk=not fe):
                v = it.to_td(it.simp(fe[0].data['args'][0]))
                if shaped(c, 'surface triangles', v, (NF, 3)):
                    got = [v.cells[0, i] for i in range(3)]; want = [atom('face_%d' % i, v.axes[0]) for i in range(3)]
                    ok = any(all(tm.equal(got[p[i]], want[i]) for i in range(3)) for p in itertools.permutations(range(3)))
                    c.holds('surface triangles are those of the surface', ok, src(got[0]), '%s' % [tm.show(x)[:50] for x in got], unk=any(x.unk for x in got))
            l = b.limit()
            loc = b.builds[0][2]
            if l is None: c.holds('the size of the tetrahedra is limited', False, loc, 'no limit given')
            else:
                r = E(l) / (cell * cell * cell); v = value(r.t)
                c.holds('the size limit is that of a tetrahedron with the circumradius asked for', v is not None and 0 < v <= 0.5133, loc, 'limit is %s of the radius cubed' % v, unk=l.unk)
            returned(c, w, m, b)
            refusals(c, it, it.events[e0:], m, NV, NF)
    W = {}
    for H, R, N in ((2.0, 1.5, 7), (0.3, 4.0, 7), (5.0, 0.25, 12), (1.0, 1.0, 1), (1.0, 30.0, 900)) + (((3.0, 2.0, 40), (0.01, 9.0, 3000)) if c.thorough else ()):
        with c.scope('cylinder of height %s, radius %s for %d crystals' % (H, R, N)):
            w = World(); it = w.it; rnd = Random(w); b = Builder(w)
            it.exts['user.density'] = lambda it, a, k: it.newT(tensor('density', (it.to_td(it.simp(a[1] if len(a) > 1 else k['q'])).cells.shape[0],), pos=True))
            it.exts['user.strain'] = lambda it, a, k: w.mat([[E(0)] * 3] * 3, (3, 3))
            p = it.simp(w.run(w.func('templates', 'polycrystal_from_odf'), Ext('user.density'), N, H, R, it.mkL([3., 3., 3., 90., 90., 90.]), 'P1', None, math.pi / 2, Ext('user.strain')))
            c.use(w)
            pe, fe = b.given('set_points'), b.given('set_facets')
            if len(pe) != 1 or len(fe) != 1 or len(b.builds) != 1: c.undecided('surface', '%d point lists, %d facet lists, %d meshes' % (len(pe), len(fe), len(b.builds))); continue
            X, Fc = numbers(it, pe[0].data['args'][0]), numbers(it, fe[0].data['args'][0])
            if not X or not Fc: c.undecided('surface', 'no numbers'); continue
            loc, fl = pe[0].loc, fe[0].loc
            tol = 1e-9 * max(R, H)
            c.holds('every point has three coordinates', all(len(x) == 3 for x in X), loc, '%s' % X[:2])
            c.holds('the points lie within the radius', all(math.hypot(x[0], x[1]) <= R + tol for x in X), loc, 'up to %s' % max(math.hypot(x[0], x[1]) for x in X))
            c.holds('the points reach the radius', max(math.hypot(x[0], x[1]) for x in X) >= R - tol, loc, 'only up to %s' % max(math.hypot(x[0], x[1]) for x in X))
            c.holds('the body extends over the height, centred', abs(max(x[2] for x in X) - H / 2) <= tol and abs(min(x[2] for x in X) + H / 2) <= tol, loc, 'from %s to %s' % (min(x[2] for x in X), max(x[2] for x in X)))
            good = all(i == int(i) and 0 <= i < len(X) for f in Fc for i in f)
            if not c.holds('facets name existing points', good, fl, '%s of %d points' % (sorted({i for f in Fc for i in f})[-2:], len(X))): continue
            edges = {}
            for f in Fc:
                f = [int(i) for i in f]
                for i, j in zip(f, f[1:] + f[:1]): edges[frozenset((i, j))] = edges.get(frozenset((i, j)), 0) + 1
            odd = [sorted(e) for e, k in edges.items() if k != 2 or len(e) != 2]
            c.holds('the surface is closed: every edge belongs to two facets', not odd, fl, 'edges %s' % odd[:3])
            if not odd:
                v = enclosed(X, [[int(i) for i in f] for f in Fc])
                full = math.pi * R * R * H
                c.holds('the surface encloses the cylinder', v is not None and 0.85 * full <= v <= full * (1 + 1e-9), fl, 'encloses %s of the volume' % (v / full if v is not None else None))
            l = b.limit(); lv = None if l is None else value(l)
            if l is None: c.holds('the size of the tetrahedra is limited', False, b.builds[0][2], 'no limit')
            elif lv is None: c.undecided('size limit', tm.show(l)[:60])
            else:
                W[(H, R, N)] = lv * N / (math.pi * R * R * H)
                c.holds('the size limit is that of a crystal', 0.3 <= W[(H, R, N)] <= 10, b.builds[0][2], 'limit is %.3g volumes per crystal' % W[(H, R, N)])
    with c.scope('crystal size'):
        c.holds('the size limit is proportional to the volume per crystal', len(W) > 1 and max(W.values()) <= min(W.values()) * (1 + 1e-6), 'xrd_simulator.templates', 'varies from %s to %s volumes per crystal' % (min(W.values()), max(W.values())), unk=len(W) < 2)


def instead(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old: return new
    if t.id not in memo:
        a = tuple(instead(x, old, new, memo) if isinstance(x, tm.Term) else x for x in t.args)
        memo[t.id] = t if all(x is y for x, y in zip(a, t.args)) else tm._mk(t.op, a)
    return memo[t.id]


def fine(c, name, got, bound, loc):
    """got <= bound for every ratio of the two radii"""
    t = (got / bound).t; v = []
    for k in (0.01, 0.5, 1, 2, 3.3, 7, 10.5, 33, 150, 1700): v += concrete_values(instead(t, atom('bounding_radius', pos=True), (bound * k).t), 2) or [None]
    bad = None in v
    c.holds(name, not bad and max(v) <= 1 + 1e-9, loc, 'up to %s times' % (None if bad else max(v)), unk=t.unk or bad)


def numbers(it, x):
    """a list of rows as numbers; None when some are unknown"""
    x = it.simp(x)
    rows = it.iter_list(x)
    if rows is None or isinstance(x, T):
        t = it.to_td(x)
        if any(a is not None for a in t.axes) or t.cells.ndim != 2: return None
        rows = [[value(z) for z in r] for r in t.cells]
    else:
        out = []
        for r in rows:
            r = it.simp(r); l = None if isinstance(r, T) else it.iter_list(r)
            out.append([value(z) for z in it.to_td(r).cells.flat] if l is None else [value(it.to_td(z).cells.flat[0] if isinstance(z, T) else it.as_term(z)) for z in map(it.simp, l)])
        rows = out
    return None if any(z is None for r in rows for z in r) else rows


def enclosed(X, F):
    """volume inside a closed surface, facets oriented consistently first"""
    tri = []
    for f in F: tri += [[f[0], f[i], f[i + 1]] for i in range(1, len(f) - 1)]
    done, queue, left = [], [tri[0]], tri[1:]
    while queue:
        t = queue.pop(); done.append(t)
        E_ = {(t[i], t[(i + 1) % 3]) for i in range(3)}
        rest = []
        for u in left:
            d = {(u[i], u[(i + 1) % 3]) for i in range(3)}
            if d & E_: queue.append(u[::-1])
            elif {(j, i) for i, j in d} & E_: queue.append(u)
            else: rest.append(u)
        left = rest
    if left: return None
    v = 0
    for a, b, d in done:
        A, B, C = X[a], X[b], X[d]
        v += A[0] * (B[1] * C[2] - B[2] * C[1]) - A[1] * (B[0] * C[2] - B[2] * C[0]) + A[2] * (B[0] * C[1] - B[1] * C[0])
    return abs(v) / 6


def refusals(c, it, events, m, NV, NF):
    """nothing to mesh is refused"""
    raises = [e for e in events if e.kind == 'raise' and not str(e.data).startswith('handled')]
    failing = {}
    for e in events:
        for t, p in e.pc:
            for x in tm.walk(t):
                if x.op == 'batom' and str(x.args[0]).startswith('exc@'): failing.setdefault(str(x.args[0]), []).append(e)
    for k, es in failing.items():
        hit = [e for e in es if e in raises]
        c.holds('a failure at %s is passed on as ValueError' % k[4:].split(':')[0], any('ValueError' in str(e.data) for e in hit), k[4:], 'raises %s' % [str(e.data)[:40] for e in hit][:2])
    cond = tm.FALSE
    for e in raises:
        p = tm.TRUE
        for t, pol in e.pc: p = tm.and_(p, t if pol else tm.not_(t))
        if 'ValueError' in str(e.data): cond = tm.or_(cond, p)
    for n in (NV, NF):
        v = truth(tm.not_(instead(cond, tm.length(n), tm.ZERO)))
        c.holds('no %s: refused with ValueError' % n.name.replace('_', ' ') if hasattr(n, 'name') else 'nothing to mesh is refused', v == {False}, raises[0].loc if raises else '', 'goes on', unk=bool(tm.uninterpreted(cond)) and not raises)
