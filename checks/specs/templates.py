"""C20 (s3dxrd geometry), C29 (sample templates)."""
from ..lib import *
from engine.vals import *
from .caller import Snapshot
from .formulas import pc_term
from .detect import concrete_values
from ..lib import expand
import itertools, math

KEYS = ('detector_distance', 'number_of_detector_pixels_z', 'number_of_detector_pixels_y', 'detector_center_pixel_z', 'detector_center_pixel_y',
        'pixel_side_length_z', 'pixel_side_length_y', 'wavelength', 'beam_side_length_z', 'beam_side_length_y', 'rotation_step', 'rotation_axis')


def parameters(w, nz, ny, **over):
    N = unit([E(atom('rot_axis_%d' % i)) for i in range(3)])
    d = {k: w.s(k, pos=True) for k in KEYS}
    d['number_of_detector_pixels_z'] = nz if nz is not None else w.s('n_z', pos=True, ty='int')
    d['number_of_detector_pixels_y'] = ny if ny is not None else w.s('n_y', pos=True, ty='int')
    d['rotation_axis'] = w.vec(N); w.axis = N
    d.update(over)
    return d


def count(c, name, t, n):
    """a number of pixels: rounded quotients are evaluated"""
    v = concrete_values(t, 12)
    return c.holds(name, bool(v) and all(abs(x - n) < 1e-9 for x in v), src(t), 'is %s instead of %s' % (v[:3], n), unk=t.unk or not v)


def P(k): return E(atom(k, pos=True))


@check('C20')
def c20(c):
    for tag, nz, ny, over in (('five by eight pixels', 5, 8, {}), ('one pixel', 1, 1, {}), ('detector offset to one side', 6, 4, {'detector_center_pixel_z': -3, 'detector_center_pixel_y': 11.5}),
                              ('detector with a corner in the beam', 6, 4, {'detector_center_pixel_z': 0, 'detector_center_pixel_y': 0.0}),
                              ('with other entries', 4, 7, {'comment': 'x'})):
        with c.scope(tag):
            w = World(); it = w.it
            d = parameters(w, nz, ny, **over)
            pd = it.mkD(d); s = Snapshot(w, parameters=pd)
            e0 = len(it.events)
            r = it.iter_list(w.run(w.func('templates', 's3dxrd'), pd)); c.use(w)
            if r is None or len(r) != 3: c.undecided('result', repr(r)); continue
            s.audit(c, 'the parameters are left as they are')
            for x in it.events[e0:]:
                if x.kind == 'raise' and str(x.data).startswith(('ValueError', 'KeyError')): c.holds('accepted', bool(x.pc), x.loc, 'raises %s' % str(x.data)[:80], unk=any(tm.uninterpreted(t) for t, p in x.pc))
            beam, det, mo = [it.simp(x) for x in r]
            D, pz, py = P('detector_distance'), P('pixel_side_length_z'), P('pixel_side_length_y')
            cz, cy = [E(over[k]) if k in over else P(k) for k in ('detector_center_pixel_z', 'detector_center_pixel_y')]
            # the detector
            want = {'det_corner_0': (0, 0), 'det_corner_1': (ny, 0), 'det_corner_2': (0, nz)}
            for n, (a, b) in want.items():
                t = it.to_td(it.simp(w.attr(det, n)))
                for i, v in enumerate((D, (a - cy) * py, (b - cz) * pz)): c.eq('%s [%s]' % (n, 'xyz'[i]), t.cells[i], v)
            for n, v in (('pixel_size_z', pz), ('pixel_size_y', py)):
                x = it.simp(w.attr(det, n))
                c.eq(n, it.to_td(x).cells.flat[0], v)
            px = it.to_td(it.simp(w.attr(det, 'pixel_coordinates')))
            for i, n in enumerate((nz, ny)):
                m = px.dims[i]
                count(c, 'number of pixels %s' % 'zy'[i], tm.length(m) if isinstance(m, tm.Space) else num(m), n)
            for n in ('lorentz_factor', 'polarization_factor', 'structure_factor'):
                c.holds('%s is on' % n, it.simp(w.attr(det, n)) is True, '', '%r' % (it.simp(w.attr(det, n)),))
            # the beam
            v = it.to_td(it.simp(w.attr(beam, 'vertices')))
            hy, hz = P('beam_side_length_y') / 2, P('beam_side_length_z') / 2
            if v.cells.ndim != 2 or any(a is not None for a in v.axes): c.undecided('beam vertices', '%s' % (v.dims,)); continue
            rows = [[E(v.cells[k, i]) for i in range(3)] for k in range(v.cells.shape[0])]
            c.holds('eight beam vertices', len(rows) == 8, loc_of(v), '%d' % len(rows))
            left = list(range(len(rows)))
            for sx, sy, sz in itertools.product((-1, 1), repeat=3):
                q = [sx * D, sy * hy, sz * hz]
                hit = [k for k in left if all(tm.decide(a.t, E(b).t)[0] == tm.PROVED for a, b in zip(rows[k], q))]
                if hit: left.remove(hit[0])
                c.holds('beam vertex at %+dD %+ddy/2 %+ddz/2' % (sx, sy, sz), bool(hit), loc_of(v) or src(v.cells.flat[0]), 'no such vertex', unk=any(a.unk for a in v.cells.flat))
            k = it.to_td(it.simp(w.attr(beam, 'wave_vector')))
            import math
            for i, q in enumerate((2 * math.pi / P('wavelength'), 0, 0)): c.eq('wave vector [%s]' % 'xyz'[i], k.cells[i], E(q))
            x = it.simp(w.attr(beam, 'wavelength')); c.eq('wavelength', it.to_td(x).cells.flat[0], P('wavelength'))
            p = it.to_td(it.simp(w.attr(beam, 'polarization_vector')))
            sg = it.td(it.simp(w.attr(beam, 'polarization_vector'))).cells
            flip = tm.decide(p.cells[1], tm.num(-1))[0] == tm.PROVED
            for i, q in enumerate((0, -1 if flip else 1, 0)): c.eq('polarization [%s]' % 'xyz'[i], p.cells[i], E(q))
            # the motion
            a = it.to_td(it.simp(w.attr(mo, 'rotation_axis'))); t = it.to_td(it.simp(w.attr(mo, 'translation'))); o = it.to_td(it.simp(w.attr(mo, 'origin')))
            for i in range(3):
                c.eq('rotation axis [%s]' % 'xyz'[i], a.cells[i], w.axis[i]); c.eq('no translation [%s]' % 'xyz'[i], t.cells[i], E(0)); c.eq('about the origin [%s]' % 'xyz'[i], o.cells[i], E(0))
            x = it.simp(w.attr(mo, 'rotation_angle')); c.eq('rotation step', it.to_td(x).cells.flat[0], P('rotation_step'))
    for k in KEYS:
        with c.scope('without ' + k):
            w = World(); it = w.it
            d = parameters(w, 4, 5); d.pop(k)
            e0 = len(it.events); kind = None
            try: w.run(w.func('templates', 's3dxrd'), it.mkD(d))
            except Stop as st: kind = st
            c.use(w)
            ev = [x for x in it.events[e0:] if x.kind == 'raise' and not x.pc]
            ok = bool(ev) and str(ev[0].data).startswith('ValueError')
            c.holds('refused with a ValueError', ok, ev[0].loc if ev else '', 'raises %s' % [str(x.data)[:60] for x in ev], unk=any(x.kind == 'raise' for x in it.events[e0:]) and not ev)


# ------------------------------------------------------------------ C29
def quaternion_matrix(q):
    """scalar last, any length"""
    x, y, z, s = q
    n = x * x + y * y + z * z + s * s
    return [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * s) / n, 2 * (x * z + y * s) / n],
            [2 * (x * y + z * s) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * s) / n],
            [2 * (x * z - y * s) / n, 2 * (y * z + x * s) / n, 1 - 2 * (x * x + y * y) / n]]


class Random:
    """numpy's and scipy's generators: known draws"""
    def __init__(self, w):
        self.w, self.it = w, w.it; self.draws = []; self.random = []; self.n = 0
        x = self.it.exts
        x['numpy.random.choice'] = self.choice
        x['numpy.random.rand'] = x['numpy.random.random'] = x['numpy.random.uniform'] = self.half
        R = 'scipy.spatial.transform.Rotation.'
        x[R + 'from_quat'] = self.from_quat; x[R + 'random'] = self.rotation_random

    def half(self, it, args, kw):
        if kw: return it.unk('random numbers')
        if not args: return 0.5
        if all(isinstance(a, int) for a in args): return it.newT(const_td(np.full(args, 0.5), 'f64', 'numpy'))
        return it.unk('random numbers')

    def choice(self, it, args, kw):
        d = {**dict(zip(('a', 'size', 'replace', 'p'), args)), **kw}
        size = it.simp(d.get('size')); p = d.get('p')
        a = it.simp(d['a'])
        k = size if isinstance(size, int) else size[0] if isinstance(size, tuple) and len(size) == 1 else None
        if (size is not None and k is None) or p is None: return it.unk('random choice')
        p = it.to_td(it.simp(p))
        if p.ndim != 1 or p.axes[0] is not None: return it.unk('random choice')
        n = p.cells.shape[0]
        out = []
        for _ in range(k or 1):
            j = (7 + 11 * len(self.draws)) % n
            self.draws.append((j, p, it.loc)); out.append(j)
        if isinstance(a, T) or isinstance(a, Lst):
            cells = it.to_td(a).cells
            idx = [cells[j] for j in out]
        else: idx = [num(j) for j in out]
        if size is None: return it.newT(TD((), (), np.array(idx[0], dtype=object).reshape(()), 'i64', 'numpy'))
        return it.newT(TD((len(idx),), (None,), np.array(idx, dtype=object), 'i64', 'numpy'))

    def rotations(self, td):
        it = self.it; self.n += 1
        name = 'model.rotation%d.' % self.n
        it.exts[name + 'as_matrix'] = lambda it, a, k: it.newT(td)
        return it.mkO('scipy.spatial.transform.Rotation', {'as_matrix': Ext(name + 'as_matrix')})

    def from_quat(self, it, args, kw):
        q = it.to_td(it.simp(args[0]), 'numpy')
        if kw or q.cells.shape[-1:] != (4,): return it.unk('rotations')
        pre = q.cells.shape[:-1]
        cells = np.empty(pre + (3, 3), dtype=object)
        for ix in np.ndindex(*pre):
            M = quaternion_matrix([E(q.cells[ix + (i,)]) for i in range(4)])
            for i in range(3):
                for j in range(3): cells[ix + (i, j)] = M[i][j].t
        return self.rotations(TD(tuple(q.dims[:-1]) + (3, 3), tuple(q.axes[:-1]) + (None, None), cells, 'f64', 'numpy'))

    def rotation_random(self, it, args, kw):
        n = it.simp(args[0]) if args else it.simp(kw.get('num', kw.get('n')))
        if n is not None and not isinstance(n, int):
            t = it.as_term(n)
            if t.op == 'num' and t.args[0] == int(t.args[0].real if isinstance(t.args[0], complex) else t.args[0]): n = int(t.args[0])
            else: return it.unk('rotations')
        self.random.append((n, it.loc))
        dims = (() if n is None else (n,)) + (3, 3)
        return self.rotations(tensor('drawn%d' % len(self.random), dims))


def cloud(w, n):
    """nodes and n tetrahedra as the mesh builder returns them"""
    it = w.it
    pts = tensor('node', (n + 3, 3))
    el = const_td(np.array([[i, i + 1, i + 2, i + 3] for i in range(n)], dtype=float), 'i64', 'numpy')
    def build(it, args, kw):
        o = it.mkO('meshpy.tet.MeshInfo', {'points': it.newT(pts), 'elements': it.newT(el)})
        return o
    it.exts['meshpy.tet.build'] = build
    return pts


def sample_is(c, w, p, n, strain, cell, sg, cif):
    """one orientation, strain and phase per element"""
    it = w.it
    for m in ('mesh_lab', 'mesh_sample'):
        k = it.simp(w.attr(it.simp(w.attr(p, m)), 'number_of_elements'))
        t = it.to_td(k).cells.flat[0] if isinstance(k, T) else it.as_term(k)
        c.eq('%s has %d elements' % (m, n), t, num(n))
    for nm in ('orientation_lab', 'orientation_sample', 'strain_lab', 'strain_sample'):
        t = it.to_td(it.simp(w.attr(p, nm)))
        c.holds('%s: one per element' % nm, t.cells.shape == (n, 3, 3) and t.dims[0] == n, loc_of(t) or src(t.cells.flat[0]), 'shape %s' % (t.dims,), unk=any(x.unk for x in t.cells.flat))
    if strain is not None:
        for nm in ('strain_lab', 'strain_sample'):
            t = it.to_td(it.simp(w.attr(p, nm)))
            if t.cells.shape != (n, 3, 3): continue
            for e in range(n):
                for i in range(3):
                    for j in range(3): c.eq('%s of element %d [%d,%d]' % (nm, e, i, j), t.cells[e, i, j], strain(e)[i][j])
    t = it.to_td(it.simp(w.attr(p, 'element_phase_map')))
    if c.holds('one phase index per element', t.cells.shape == (n,), '', 'shape %s' % (t.dims,), unk=any(x.unk for x in t.cells.flat)):
        for e in range(n): c.eq('phase index of element %d' % e, t.cells[e], num(0))
    ph = it.iter_list(it.simp(w.attr(p, 'phases')))
    c.holds('one phase', ph is not None and len(ph) == 1, '', '%r' % (ph,), unk=ph is None)
    if ph:
        f = it.simp(ph[0])
        u = it.iter_list(it.simp(w.attr(f, 'unit_cell')))
        if u is None: u = [Sym(x, 'float') for x in it.to_td(it.simp(w.attr(f, 'unit_cell'))).cells.flat]
        c.holds('six cell parameters', len(u) == 6, '', '%d' % len(u))
        for i, x in enumerate(u[:6]): c.eq('cell parameter %d' % i, it.as_term(x), cell[i])
        for nm, want in (('sgname', sg), ('path_to_cif_file', cif)):
            g = it.simp(w.attr(f, nm))
            c.holds('%s of the phase' % nm, g == want, '', '%r instead of %r' % (g, want), unk=not isinstance(g, (str, type(None))))


def centroid_of(pts, e): return [sum((E(pts.cells[e + k, i]) for k in range(4)), E(0)) / 4 for i in range(3)]


@check('C29')
def c29(c):
    for n, sg, cif in ((3, 'P3221', 'a.cif'), (1, 'Fm-3m', None)) + (((5, 'I41', 'b.cif'),) if c.thorough else ()):
        with c.scope('polycrystal_from_odf, %d elements' % n):
            w = World(); it = w.it; rnd = Random(w); pts = cloud(w, n)
            odf, bent = [], []
            def density(it, args, kw):
                x = it.to_td(it.simp(args[0] if args else kw['x'])); q = it.to_td(it.simp(args[1] if len(args) > 1 else kw['q']))
                td = tensor('density%d' % len(odf), (q.cells.shape[0],), pos=True)
                odf.append((x, q, td, it.loc))
                return it.newT(td)
            K = [[1, .3, .2], [.3, 2, .5], [.2, .5, 3]]
            def law(x): return [[(E(K[i][j]) * (x[0] + 2 * x[1] * x[1] + 3 * x[2] * x[2]) + (i + j)) * 1e-3 for j in range(3)] for i in range(3)]
            def bend(it, args, kw):
                x = it.to_td(it.simp(args[0] if args else kw['x']))
                bent.append((x, it.loc))
                if x.cells.shape != (3,): return it.unk('strain of %s' % (x.dims,))
                return w.mat(law([E(a) for a in x.cells]), (3, 3))
            it.exts['user.density'] = density; it.exts['user.strain'] = bend
            cell = [atom('cell%d' % i, pos=True) for i in range(6)]
            p = it.simp(w.run(w.func('templates', 'polycrystal_from_odf'), Ext('user.density'), 7, w.s('height', pos=True), w.s('radius', pos=True),
                              it.mkL([Sym(a, 'float') for a in cell]), sg, cif, math.pi / 2, Ext('user.strain')))
            c.use(w)
            cen = [centroid_of(pts, e) for e in range(n)]
            sample_is(c, w, p, n, lambda e: law(cen[e]), cell, sg, cif)
            points_are(c, 'the density is asked for every element at its own centroid', [(x, l) for x, q, t, l in odf], cen)
            points_are(c, 'the strain is asked for every element at its own centroid', bent, cen)
            c.holds('one draw per element', len(rnd.draws) == n, rnd.draws[0][2] if rnd.draws else '', '%d draws' % len(rnd.draws), unk=bool(it.imprecise))
            O = it.to_td(it.simp(w.attr(p, 'orientation_lab')))
            if len(rnd.draws) == n == len(odf) and O.cells.shape == (n, 3, 3):
                for e in range(n):
                    j, pr, loc = rnd.draws[e]; x, q, t, _ = odf[e]
                    if pr.cells.shape != t.cells.shape: c.holds('one probability per orientation', False, loc, '%s for %s' % (pr.dims, t.dims)); continue
                    seen = {a for cl in pr.cells for a in tm.walk(cl) if a.op == 'atom' and str(a.args[0]).startswith('density')} if hasattr(tm, 'walk') else set()
                    c.holds('element %d is drawn from its own density' % e, bool(seen) and all(str(a.args[0]).startswith('density%d_' % e) for a in seen), loc, 'uses %s' % sorted({a.args[0] for a in seen})[:3], unk=any(z.unk for z in pr.cells))
                    wt = bins(q)
                    if wt is None: c.undecided('orientation bins', 'no regular grid')
                    else:
                        tot = sum((E(wt[i]) * t.cells[i] for i in range(len(wt))), E(0))
                        for m in (0, j, len(wt) - 1):
                            c.eq('element %d: probability %d is the density times the volume of the bin, normalised' % (e, m), E(pr.cells[m]) * tot, E(wt[m]) * t.cells[m], where=loc)
                    M = quaternion_matrix([E(q.cells[j, i]) for i in range(4)])
                    for a in range(3):
                        for b in range(3): c.eq('orientation of element %d is the one drawn [%d,%d]' % (e, a, b), O.cells[e, a, b], M[a][b])
    for n, sg, cif, st in ((3, 'P3221', 'a.cif', True), (1, 'Fm-3m', None, False)) + (((6, 'I41', None, True),) if c.thorough else ()):
        with c.scope('powder of %d grains' % n):
            w = World(); it = w.it; rnd = Random(w)
            cell = [atom('cell%d' % i, pos=True) for i in range(6)]
            S = [[E(atom('eps_%d%d' % (min(i, j), max(i, j)))) for j in range(3)] for i in range(3)]
            r = E(atom('radius', pos=True))
            kw = dict(strain_tensor=w.mat(S, (3, 3))) if st else {}
            if cif: kw['path_to_cif_file'] = cif
            p = it.simp(w.run(w.func('templates', 'get_uniform_powder_sample'), Sym(r.t, 'float'), n, it.mkL([Sym(a, 'float') for a in cell]), sg, **kw))
            c.use(w)
            sample_is(c, w, p, n, lambda e: S if st else [[E(0)] * 3] * 3, cell, sg, cif)
            c.holds('orientations are drawn for all grains', sum(k or 1 for k, l in rnd.random) == n, rnd.random[0][1] if rnd.random else '', '%s' % rnd.random, unk=not rnd.random)
            O = it.to_td(it.simp(w.attr(p, 'orientation_lab')))
            if O.cells.shape == (n, 3, 3):
                names = [O.cells[e, 0, 0] for e in range(n)]
                c.holds('every grain has an orientation of its own', len(set(names)) == n, src(names[0]), '%s' % names, unk=any(x.op != 'atom' for x in names))
            m = it.simp(w.attr(p, 'mesh_lab'))
            co = it.to_td(it.simp(w.attr(m, 'coord'))); en = it.to_td(it.simp(w.attr(m, 'enod')))
            if any(a is not None for a in co.axes + en.axes): c.undecided('nodes', '%s' % (co.dims,)); continue
            for e in range(en.cells.shape[0]):
                X = []
                for k in range(4):
                    ix = en.cells[e, k]
                    v = tm.CLane(0).nv(ix, {})[0]
                    if abs(v - round(v.real)) > 1e-9: raise ValueError('node number')
                    X.append([E(a) for a in co.cells[int(round(v.real))]])
                    v = concrete_values(norm(X[-1]) / r)
                    c.holds('node %d of grain %d lies inside the bounding radius' % (k, e), bool(v) and max(v) <= 1 + 1e-9, src(X[-1][0].t), '%s radii from the centre' % v[:1], unk=not v)
                vol = dot(vsub(X[1], X[0]), cross(vsub(X[2], X[0]), vsub(X[3], X[0])))
                v = concrete_values(absv(vol) / (r * r * r))
                c.holds('grain %d has a volume' % e, bool(v) and min(v) > 1e-3, src(X[0][0].t), '%s' % v[:1], unk=not v)


def points_are(c, name, got, want):
    """the points a user function was asked for, one by one in the order of the elements"""
    ok = len(got) == len(want) and all(x.cells.shape == (3,) for x, l in got)
    unk = any(z.unk for x, l in got for z in x.cells.flat) or not got
    c.holds(name, ok, got[0][1] if got else '', '%d calls for %d elements' % (len(got), len(want)), unk=unk or len(got) > len(want) or any(x.cells.shape != (3,) for x, l in got))
    if ok:
        for e, (x, l) in enumerate(got):
            for i in range(3): c.eq('%s: element %d [%s]' % (name, e, 'xyz'[i]), x.cells[i], want[e][i], where=l)



def value(t):
    v = concrete_values(t, 3)
    return v[0] if v and max(v) - min(v) < 1e-9 else None


def bins(q):
    """volumes of the orientation bins around a regular grid of quaternions in the three angles of the hypersphere"""
    Q = [[value(x) for x in row] for row in q.cells]
    if any(x is None for r in Q for x in r): return None
    ang = []
    for a, b, d, e in Q:
        a1 = math.acos(max(-1, min(1, a))); s = math.sin(a1)
        ang.append((a1, math.acos(max(-1, min(1, e / s))), math.atan2(d, b) % (2 * math.pi)))
    step = []
    for k in range(3):
        u = sorted({round(x[k], 7) for x in ang})
        g = [y - x for x, y in zip(u, u[1:])] or [0]
        if max(g) - min(g) > 1e-5 or not g[0]: return None
        step.append(g[0] / 2)
    f = lambda x: (x - math.sin(x) * math.cos(x)) / 2
    w = [(f(a + step[0]) - f(a - step[0])) * (math.cos(b - step[1]) - math.cos(b + step[1])) * 2 * step[2] for a, b, g in ang]
    return w if abs(sum(w) - math.pi ** 2) < 1e-3 else None
