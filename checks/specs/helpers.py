"""C36: the stand-alone helpers compute the quantities they document."""
from ..lib import *
from engine.vals import *
from .formulas import shaped
from .refusals import truth
from .diffract import crystal_B
from ..lib import expand
import math
PI = math.pi


def atoms(name, *dims, axes=()):
    """object array of independent numbers"""
    a = np.empty(dims, dtype=object)
    for i in np.ndindex(*dims): a[i] = E(atom(name + ''.join('_%d' % k for k in i), *axes))
    return a


def laue(c):
    N, M = Base('grains'), Base('planes')
    for lib in ('torch', 'numpy'):
        for tag, gd, hd in (('many grains, many planes', (N,), (M,)), ('many grains, one plane', (N,), ()), ('one grain, many planes', (1,), (M,)), ('one grain, many planes', (), (M,)), ('two grains, three planes', (2,), (3,))):
            with c.scope('G of %s (%s)' % (tag, lib)):
                w = World(); it = w.it
                U, B, H = tensor('U', gd + (3, 3), lib=lib), tensor('B', gd + (3, 3), lib=lib), tensor('hkl', hd + (3,), lib=lib)
                r = it.to_td(w.run(w.func('laue', '_get_G'), it.newT(U), it.newT(B), it.newT(H))); c.use(w)
                want = (gd if gd else ()) + (3,) + (hd or (1,))
                if not shaped(c, 'one vector per grain and plane', r, want): continue
                at = {}
                if gd == (N,): at[U.axes[0]] = E(r.axes[0])
                if hd == (M,): at[H.axes[0]] = E(r.axes[-1])
                for ix in np.ndindex(*r.cells.shape):
                    g = (ix[0],) if gd else (); h = (ix[-1],) if hd else (); i = ix[-2]
                    e = lambda t, k: E(t.cells[k]).at({a: b for a, b in at.items() if a in E(t.cells[k]).t.fv})
                    w_ = E(0)
                    for j in range(3):
                        for k in range(3): w_ = w_ + e(U, g + (i, j)) * e(B, g + (j, k)) * e(H, h + (k,))
                    c.eq('G = U B hkl %s' % (list(ix),), r.cells[ix], w_)
        for tag, d in (('one vector', (3,)), ('many vectors', (3, N)), ('two vectors', (3, 2))):
            with c.scope('Bragg angle of %s (%s)' % (tag, lib)):
                w = World(); it = w.it; G = tensor('G', d, lib=lib); wl = w.s('wavelength', pos=True)
                th = it.to_td(w.run(w.func('laue', '_get_bragg_angle'), it.newT(G), wl))
                both = [it.to_td(x) for x in it.iter_list(it.simp(w.run(w.func('laue', '_get_sin_theta_and_norm_G'), it.newT(G), wl)))]; c.use(w)
                c.holds('sine and norm', len(both) == 2, '', 'got %d values' % len(both))
                for nm, r, f in (('arcsin(|G| wavelength / 4 pi)', th, lambda n: tm.fn('arcsin', (n * E(wl.t) / (4 * PI)).t)), ('sin theta = |G| wavelength / 4 pi', both[0], lambda n: (n * E(wl.t) / (4 * PI)).t), ('|G|', both[1], lambda n: n.t)):
                    if not shaped(c, nm, r, d[1:]): continue
                    at = {G.axes[1]: E(r.axes[0])} if d == (3, N) else {}
                    for j in range(r.cells.size):
                        g = [E(G.cells[(i,) + ((j,) if len(d) > 1 else ())]) for i in range(3)]
                        g = [x.at(at) if at else x for x in g]
                        c.eq('%s [%d]' % (nm, j), r.cells.flat[j], f(sqrt(dot(g, g))))


def small_helpers(c):
    for n in (2, 3, 4):
        with c.scope('sphere through %d points' % n):
            w = World(); it = w.it; P_ = tensor('p', (n, 3), lib='numpy')
            r = it.to_td(w.run(w.func('utils', '_get_circumscribed_sphere_centroid'), it.newT(P_))); c.use(w)
            if not shaped(c, 'centroid', r, (3,)): continue
            X = [E(r.cells[i]) for i in range(3)]; p = [[E(P_.cells[k, i]) for i in range(3)] for k in range(n)]
            d = [dot(vsub(X, q), vsub(X, q)) for q in p]
            for k in range(1, n): c.eq('equally far from points 0 and %d' % k, d[k].t, d[0])
            if n == 2:
                for i in range(3): c.eq('on the segment [%d]' % i, r.cells[i], (p[0][i] + p[1][i]) / 2)
            if n == 3: c.eq('in the plane of the points', dot(vsub(X, p[0]), cross(vsub(p[1], p[0]), vsub(p[2], p[0]))).t, E(0), )
    N = Base('tetrahedra')
    for lib in ('torch', 'numpy'):
        with c.scope('sides of tetrahedra (%s)' % lib):
            w = World(); it = w.it; P_ = tensor('p', (N, 4, 3), lib=lib)
            r = it.to_td(w.run(w.func('utils', '_compute_sides'), it.newT(P_))); c.use(w)
            if shaped(c, 'six sides', r, (N, 6)):
                q = lambda k: [E(P_.cells[0, k, i]).at({P_.axes[0]: E(r.axes[0])}) for i in range(3)]
                for j, (a, b) in enumerate(((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))):
                    v = vsub(q(a), q(b)); c.eq('distance of nodes %d and %d' % (a, b), r.cells[0, j], sqrt(dot(v, v)))
    for n in (0, 1, 2, 3):
        with c.scope('value in %d intervals' % n):
            w = World(); it = w.it; v = atom('value')
            I = [[atom('lo%d' % i), atom('hi%d' % i)] for i in range(n)]
            r = w.run(w.func('utils', '_contained_by_intervals'), Sym(v, 'float'), it.mkL([it.mkL([Sym(a, 'float'), Sym(b, 'float')]) for a, b in I])); c.use(w)
            want = tm.FALSE
            for a, b in I: want = tm.or_(want, tm.and_(tm.le(a, v), tm.le(v, b)))
            c.eq('inside one of them, ends included', it.truth(r), want)


def detector_helpers(c):
    def parts(w, d):
        z, y, n = ([E(it_cell) for it_cell in w.it.to_td(w.it.simp(w.attr(d, k))).cells.flat] for k in ('zdhat', 'ydhat', 'normal'))
        return z, y, n, [E(x) for x in w.it.to_td(w.it.simp(w.attr(d, 'det_corner_0'))).cells.flat]
    def outcome(it, r, want_none, dims, name, cells, also=None):
        """value r is None exactly when want_none, else the given numbers"""
        r = it.simp(r); none = tm.FALSE
        leaves = []
        def go(v, g):
            v = it.simp(v)
            if isinstance(v, Phi): go(v.a, tm.and_(g, v.c)); go(v.b, tm.and_(g, tm.not_(v.c)))
            else: leaves.append((g, v))
        go(r, tm.TRUE)
        for g, v in leaves:
            if v is None: none = tm.or_(none, g)
        c.eq_any(name + ': nothing exactly when there is no such point', none, [want_none] + ([also] if also is not None else []))
        for k, want in enumerate(cells):
            got = None
            for g, v in reversed(leaves):
                if v is None: continue
                t = it.to_td(v) if isinstance(v, T) else None
                x = t.cells.flat[k] if t is not None else it.as_term(it.iter_list(v)[k])
                got = x if got is None else tm.ite(g, x, got)
            if got is None: c.holds('%s [%d]' % (name, k), False, '', 'never any'); continue
            c.eq('%s [%d]' % (name, k), got, want, guard=tm.not_(want_none))
    for lib in ('numpy',):
        with c.scope('ray and detector plane'):
            w = World(); it = w.it; d = w.detector()
            z, y, n, d0 = parts(w, d)
            o, k = tensor('o', (3,), lib=lib), tensor('k', (3,), lib=lib)
            r = w.meth(d, '_ray_detector_intersection', it.newT(o), it.newT(k)); c.use(w)
            O, K = [E(x) for x in o.cells], [E(x) for x in k.cells]
            den = dot(K, n); t = dot(vsub(d0, O), n) / den
            none = tm.or_(tm.lt(tm.fn('abs', den.t), tm.num(1e-10)), tm.lt(t.t, tm.ZERO))
            outcome(it, r, none, (3,), 'point of the ray on the plane', [O[i] + t * K[i] for i in range(3)])
        with c.scope('pixel coordinates of a point'):
            w = World(); it = w.it; d = w.detector()
            z, y, n, d0 = parts(w, d)
            o = tensor('o', (3,), lib=lib)
            r = w.meth(d, '_world_to_pixel_coords', it.newT(o)); c.use(w)
            v = vsub([E(x) for x in o.cells], d0)
            pz, py = (E(it.as_term(w.attr(d, q))) if not isinstance(it.simp(w.attr(d, q)), T) else E(it.to_td(w.attr(d, q)).cells.flat[0]) for q in ('pixel_size_z', 'pixel_size_y'))
            a, b = dot(v, z) / pz, dot(v, y) / py
            dims = it.to_td(w.attr(d, 'pixel_coordinates')).dims
            nz, ny = tm.length(dims[0]), tm.length(dims[1])
            none = tm.or_(tm.or_(tm.lt(a.t, tm.ZERO), tm.le(nz, a.t)), tm.or_(tm.lt(b.t, tm.ZERO), tm.le(ny, b.t)))
            also = tm.not_(tm.and_(tm.and_(tm.le(tm.ZERO, a.t), tm.lt(a.t, nz)), tm.and_(tm.le(tm.ZERO, b.t), tm.lt(b.t, ny))))     # the same except for undefined numbers
            outcome(it, r, none, (2,), 'row and column', [a, b], also)


def spheres(c):
    """spheres screened against the beam as it moves relative to the sample"""
    from .formulas import strip_rounding
    n = 0
    for ang, tr, rad in ((0.3, 0.0, 1.0), (0.03, 0.0, 1.0), (0.01, 7.0, 0.5), (0.9, 1.0, 1.0), (0.2, -3.3, 0.25)):
        with c.scope('samples in time for an angle of %s, a translation of %s and a radius of %s' % (ang, tr, rad)):
            w = World(); it = w.it; b = w.beam()
            m = w.new('motion', 'RigidBodyMotion', w.npconst((0, 0, 1)), ang, w.npconst((0, tr, tr / 2)), w.npconst((0, 0, 0)))
            cs = w.t('sphere', 5, 3, lib='torch'); rs = w.npconst(np.linspace(rad, 2 * rad, 5))
            rs = it.newT(it.to_td(rs).repl(lib='torch'))
            r = it.iter_list(it.simp(w.meth(b, '_get_candidate_spheres', cs, rs, m))); c.use(w)
            t = it.to_td(r[1])
            v = [x.args[0] for x in t.cells.flat if tm.isnum(x)]
            c.holds('numbers', len(v) == t.cells.size, loc_of(t), '', unk=True)
            if len(v) != t.cells.size: continue
            c.holds('from 0 to 1', bool(v) and v[0] == 0 and v[-1] == 1, loc_of(t), 'times %s' % v[:3])
            st = max(np.diff(v)) if len(v) > 1 else 1
            c.holds('evenly', len(v) > 1 and st - min(np.diff(v)) < 1e-9, loc_of(t), 'uneven')
            c.holds('at most one degree', st * ang <= math.radians(1) * (1 + 1e-9), loc_of(t), 'steps of %.3g degrees' % math.degrees(st * ang))
            c.holds('at most half a radius', st * abs(tr) * math.sqrt(1.25) <= rad / 2 * (1 + 1e-9), loc_of(t), 'steps of %.3g radii' % (st * abs(tr) * math.sqrt(1.25) / rad))
            mk = it.to_td(r[0])
            shaped(c, 'one answer per time and sphere', mk, (len(v), 5))


    with c.scope('spheres near the moving beam'):
        w = World(); it = w.it; hulls = []
        b = w.beam()
        def hull(it, args, kw):
            t = it.to_td(args[0]); k = len(hulls)
            f = tensor('facet_%d' % k, (Base('facets'), 4), lib='numpy')
            hulls.append((t, f))
            return it.mkO('scipy.spatial.ConvexHull', {'points': args[0], 'equations': it.newT(f)})
        w.it.exts['scipy.spatial.ConvexHull'] = hull
        w.it.exts['numpy.unique'] = lambda it, args, kw: args[0]
        tr = (0.3, -0.2, 0.5); o = (0.7, 0.1, -0.4); ang = 0.02
        m = w.new('motion', 'RigidBodyMotion', w.npconst((0, 0, 1)), ang, w.npconst(tr), w.npconst(o))
        N = 3
        cs = tensor('sphere', (N, 3), lib='torch'); rs = tensor('radius', (N,), lib='torch', pos=True)
        w.it.exts['torch.min'] = lambda it, args, kw: it.newT(V.scalar(tm.num(0.9), 'f64', 'torch'))      # only sets the number of samples
        r = it.iter_list(it.simp(w.meth(b, '_get_candidate_spheres', it.newT(cs), it.newT(rs), m))); c.use(w)
        mk = it.to_td(r[0]); ts = [x.args[0] for x in it.to_td(r[1]).cells.flat if tm.isnum(x)]
        if len(hulls) != len(ts) or mk.cells.shape != (len(ts), N) or not ts: c.undecided('one hull per sample', '%d hulls, %d samples' % (len(hulls), len(ts)))
        else:
            for k, t in enumerate(ts):
                P_, f = hulls[k]; ca, sa = math.cos(-ang * t), math.sin(-ang * t)
                if shaped(c, 'vertices of the beam at sample %d' % k, P_, (w.in_beam[0] and it.to_td(w.in_beam[0]).dims[0], 3)):
                    X = [E(atom('beam_vertex_%d' % i, P_.axes[0])) - o[i] for i in range(3)]
                    want = [ca * X[0] - sa * X[1], sa * X[0] + ca * X[1], X[2]]
                    for i in range(3): c.eq('beam moved backwards relative to the sample, sample %d [%d]' % (k, i), P_.cells[0, i], want[i] + o[i] - tr[i] * t)
                a = f.axes[0]
                for j in range(N):
                    d = E(f.cells[0, 3])
                    for i in range(3): d = d + E(f.cells[0, i]) * E(cs.cells[j, i])
                    far = tm.red('any', a.args[0], a, tm.lt(rs.cells[j], d.t))
                    c.eq('sphere %d is dropped exactly when it lies outside a half-space by more than its radius, sample %d' % (j, k), strip_rounding(c, mk.cells[k, j], src(mk.cells[k, j])), tm.not_(far), where=src(mk.cells[k, j]))


@check('C36')
def c36(c):
    laue(c)
    small_helpers(c)
    detector_helpers(c)
    spheres(c)
