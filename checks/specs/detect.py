"""C14 (detector geometry), C13 detector part, C11 (frames), C12 (intensity), C10, C15, C17, C28."""
from ..lib import *
from .formulas import shaped, pc_term, text
from .motion import same_tensor
from .diffract import NAMES, DETNAMES
import math
pi = math.pi


def hats(w):
    c0, c1, c2 = w.corners
    z = vsub(c2, c0); y = vsub(c1, c0)
    zl, yl = norm(z), norm(y)
    zh, yh = scale(1 / zl, z), scale(1 / yl, y)
    n = cross(zh, yh)
    return dict(c0=c0, zmax=zl, ymax=yl, z=zh, y=yh, n=scale(1 / norm(n), n))


def scalar_of(it, v):
    v = it.simp(v)
    return E(it.td(v).cells.flat[0]) if isinstance(v, T) else E(it.as_term(v))


def concrete_values(t, n=6):
    out = []
    for seed in range(60):
        x = tm.CLane(seed, 0.0).nv(E(t).t, {})[0]
        if x == x and abs(x.imag) < 1e-9: out.append(x.real)
        if len(out) == n: break
    return out


def dim_len(td, k):
    d = td.dims[k]
    return E(tm.length(d)) if isinstance(d, tm.Space) else E(d)


def hit(w, h, d, X):
    """(ray parameter, zd, yd, incidence angle in degrees)"""
    s = dot(vsub(h['c0'], X), h['n']) / dot(d, h['n'])
    P_ = vadd(X, scale(s, d)); q = vsub(P_, h['c0'])
    return s, dot(q, h['z']), dot(q, h['y']), arccos(-dot(unit(d), h['n'])) * 180 / pi


@check('C14')
def c14(c):
    for tag, kw, pz, py in (('pixel sizes (z, y)', lambda w: dict(pixel_size=(w.s('psz', pos=True), w.s('psy', pos=True))), lambda h: atom('psz', pos=True), lambda h: atom('psy', pos=True)),
                            ('list of pixel sizes', lambda w: dict(pixel_size=w.it.mkL([w.s('psz', pos=True), w.s('psy', pos=True)])), lambda h: atom('psz', pos=True), lambda h: atom('psy', pos=True)),
                            ('one pixel size', lambda w: dict(pixel_size=w.s('ps', pos=True)), lambda h: atom('ps', pos=True), lambda h: atom('ps', pos=True)),
                            ('numbers of pixels (z, y)', lambda w: dict(n_pixels=(5, 9)), lambda h: h['zmax'] / 5, lambda h: h['ymax'] / 9),
                            ('list of numbers of pixels', lambda w: dict(n_pixels=w.it.mkL([6, 4])), lambda h: h['zmax'] / 6, lambda h: h['ymax'] / 4),
                            ('one number of pixels', lambda w: dict(n_pixels=7), lambda h: h['zmax'] / 7, lambda h: h['ymax'] / 7)):
        with c.scope(tag):
            w = World(); it = w.it; d = w.detector(**kw(w)); c.use(w); h = hats(w)
            for nm, want in (('zdhat', h['z']), ('ydhat', h['y']), ('normal', h['n'])):
                v = it.to_td(it.simp(w.attr(d, nm)))
                if shaped(c, nm, v, (3,)):
                    for i in range(3): c.eq('%s [%d]' % (nm, i), v.cells[i], want[i])
            for nm, want in (('pixel_size_z', pz(h)), ('pixel_size_y', py(h)), ('zmax', h['zmax']), ('ymax', h['ymax'])):
                c.eq(nm, scalar_of(it, w.attr(d, nm)), want)
            p = it.to_td(it.simp(w.attr(d, 'pixel_coordinates')))
            c.holds('pixel_coordinates has rows, columns and xyz', p.ndim == 3 and p.dims[2] == 3, loc_of(p), 'shape %s' % (p.dims,), unk=any(x.unk for x in p.cells.flat))
            if p.ndim == 3 and p.dims[2] == 3:
                if p.axes[0] is not None and p.axes[1] is not None:
                    i, j = E(tm.idx(p.axes[0])), E(tm.idx(p.axes[1]))
                    for x in range(3):
                        c.eq('pixel_coordinates[i,j] = corner0 + i pz zhat + j py yhat [%d]' % x, p.cells[0, 0, x], h['c0'][x] + i * pz(h) * h['z'][x] + j * py(h) * h['y'][x])
                else:
                    for ix in np.ndindex(*p.cells.shape[:2]):
                        i = E(tm.idx(p.axes[0])) if p.axes[0] is not None else ix[0]; j = E(tm.idx(p.axes[1])) if p.axes[1] is not None else ix[1]
                        for x in range(3): c.eq('pixel_coordinates %s,%d' % (list(ix), x), p.cells[ix + (x,)], h['c0'][x] + i * pz(h) * h['z'][x] + j * py(h) * h['y'][x])
                if 'number' in tag:
                    want = {'numbers of pixels (z, y)': (5, 9), 'list of numbers of pixels': (6, 4), 'one number of pixels': (7, 7)}[tag]
                    for k in range(2):
                        L = dim_len(p, k).t; vs = concrete_values(L)
                        c.holds('%s of pixels are those asked for' % ('rows', 'columns')[k], bool(vs) and all(abs(v - want[k]) < 1e-9 for v in vs), src(L), '%s instead of %d' % (sorted(set(round(v, 6) for v in vs)), want[k]), unk=L.unk or not vs)
    # the pixels cover the rectangle: the last pixel is the one that reaches the far side
    for r in (3.3, 4.0, 6.75) + ((2.0, 8.999, 5.01, 1.5, 0.4) if c.thorough else ()):
        with c.scope('sides of %s pixels' % r):
            w = World(); it = w.it
            w.detector(pixel_size=w.s('ps', pos=True)); h = hats(w)
            d = w.detector(pixel_size=(Sym((h['zmax'] / r).t, 'float'), Sym((h['ymax'] / (2 * r)).t, 'float'))); c.use(w)
            p = it.to_td(it.simp(w.attr(d, 'pixel_coordinates')))
            for k, want in enumerate((math.ceil(r), math.ceil(2 * r))):
                L = dim_len(p, k).t; vs = concrete_values(L)
                c.holds('%s cover the side' % ('rows', 'columns')[k], bool(vs) and all(abs(v - want) < 1e-9 for v in vs), src(L), '%s instead of %d' % (sorted(set(round(v, 6) for v in vs)), want), unk=L.unk or not vs)
    # sides that are a whole number of pixels, in floating point
    for side, ps, want in ((2.1, 0.3, 7), (0.7, 0.1, 7), (4.35, 0.15, 29), (1.1, 0.1, 11), (0.3, 0.1, 3), (6.0, 1.5, 4), (4.1, 1.0, 5)):
        with c.scope('side %s of pixels of %s' % (side, ps)):
            w = World(); it = w.it
            d = w.new('detector', 'Detector', w.npconst((1.0, 0.0, 0.0)), w.npconst((1.0, side, 0.0)), w.npconst((1.0, 0.0, side)), pixel_size=ps); c.use(w)
            p = it.to_td(it.simp(w.attr(d, 'pixel_coordinates')))
            for k in range(2):
                L = dim_len(p, k).t; vs = concrete_values(L)
                c.holds('%s cover the side' % ('rows', 'columns')[k], bool(vs) and all(v == want for v in vs), src(L), '%s instead of %d' % (sorted(set(vs)), want), unk=L.unk or not vs)
    N = Base('rays')
    for tag, dims in (('many rays', (N, 3)), ('one ray', (3,)), ('one ray as a row', (1, 3)), ('two rays', (2, 3))):
        with c.scope('intersection, ' + tag):
            w = World(); it = w.it; d = w.detector(); h = hats(w)
            rd = tensor('ray', dims, lib='torch'); rp = tensor('source', dims, lib='torch')
            r = it.to_td(w.meth(d, '_get_intersection', it.newT(rd), it.newT(rp))); c.use(w)
            n0 = dims[0] if len(dims) == 2 else 1
            if not shaped(c, 'zd, yd and angle per ray', r, (n0, 3)): continue
            at = {rd.axes[0]: E(r.axes[0])} if n0 is N else {}
            for q in range(r.cells.shape[0]):
                ix = (q,) if len(dims) == 2 else ()
                D = [E(rd.cells[ix + (i,)]).at(at) for i in range(3)]; X = [E(rp.cells[ix + (i,)]).at(at) for i in range(3)]
                s, zd, yd, an = hit(w, h, D, X)
                nan = E(tm.NAN)
                c.eq('zd, none behind the source [%d]' % q, r.cells[q, 0], ite(s < 0, nan, zd))
                c.eq('yd, none behind the source [%d]' % q, r.cells[q, 1], ite(s < 0, nan, yd))
                c.eq_any('incidence angle in degrees [%d]' % q, r.cells[q, 2], [an, ite(s < 0, nan, an)])
    with c.scope('caller arrays'):
        w = World(); it = w.it; d = w.detector(); h = hats(w); n0 = len(it.events)
        a, b = w.t('ray', N, 3, lib='torch'), w.t('source', N, 3, lib='torch')
        w.meth(d, '_get_intersection', a, b); c.use(w)
        for nm in ('zdhat', 'ydhat', 'normal'):
            v = it.to_td(it.simp(w.attr(d, nm)))
            for i in range(3): c.eq('an intersection leaves %s as it is [%d]' % (nm, i), v.cells[i], {'zdhat': h['z'], 'ydhat': h['y'], 'normal': h['n']}[nm][i])
    for lib in ('numpy', 'torch'):
        with c.scope('wrapping cone (%s)' % lib):
            w = World(); it = w.it; d = w.detector(); h = hats(w)
            k = [E(atom('k_%d' % i)) for i in range(3)]; X = [E(atom('source_%d' % i)) for i in range(3)]
            r = w.meth(d, '_get_wrapping_cone', w.vec(k, lib), w.vec(X, lib)); c.use(w)
            c0, c1, c2 = w.corners
            ang = [arccos(dot(unit(vsub(q, X)), unit(k))) for q in (c0, c1, c2, vadd(c2, vsub(c1, c0)))]
            m = ang[0]
            for a in ang[1:]: m = f_('max', m, a)
            got = scalar_of(it, r)
            vs = []
            for seed in range(40):
                ln = tm.CLane(seed, 0.0); a, b = ln.nv(got.t, {})[0], [ln.nv(x.t, {})[0] for x in ang]
                if a == a and abs(a.imag) < 1e-9 and all(x == x and abs(x.imag) < 1e-9 for x in b): vs.append((a.real, max(x.real for x in b) / 2))
            bad = [v for v in vs if abs(v[0] - v[1]) > 1e-7]
            c.holds('half the widest angle to the four corners', bool(vs) and not bad, src(got.t), 'computed %s' % tm.show(got.t, 5)[:200], unk=got.t.unk or len(vs) < 5)


# ------------------------------------------------------------------ the peak table in the detector
def peaks_dict(w, beam, motion, mesh, N=None, dtype='f64', verbose=False):
    it = w.it
    N = N or Base('peaks')
    peaks = w.t('peak', N, 25, lib='torch', dtype=dtype)
    w.N = N; w.in_peaks = peaks
    w.in_columns = it.mkL(list(NAMES))
    w.in_dict = it.mkD({'peaks': peaks, 'columns': w.in_columns, 'incident_vector': it.getattr(beam, 'wave_vector'), 'wavelength': it.getattr(beam, 'wavelength'),
                        'rotation_axis': it.getattr(motion, 'rotation_axis'), 'mesh_lab': mesh, 'rigid_body_motion': motion, 'beam': beam, 'verbose': verbose})
    return w.in_dict


def clip_model(w):
    """beam clipping: no hull or a hull that depends on the beam and the vertices handed in (C31 is not claimed)"""
    def isect(it, args, kw):
        d = {**dict(zip(('self', 'vertices'), args)), **kw}
        try: it.to_td(d['vertices'])
        except V.Unsupported: return it.unk('clipping of an unknown value', d['vertices'])
        w.clipped = getattr(w, 'clipped', []) + [(d['self'], it.to_td(d['vertices']), it.loc if hasattr(it, 'loc') else '')]
        h = it.run(Ext('scipy.spatial.ConvexHull'), it.mkT(it.to_td(d['vertices']).repl(lib='numpy', root=None)))
        return Phi(tm.batom('empty', it.as_term(d['vertices'])), None, h)
    w.it.exts['xrd_simulator.beam.Beam._intersect'] = isect


class DetScene:
    def __init__(self, c, dtype='f64', verbose=False, N=None, empty_hulls=True, **det):
        w = self.w = World(); it = self.it = w.it; self.c = c
        clip_model(w)
        self.beam = w.beam(); self.motion = w.motion(); self.mesh = w.mesh()
        self.det = w.detector(**det)
        self.h = hats(w)
        self.pd = peaks_dict(w, self.beam, self.motion, self.mesh, N, dtype, verbose)
        self.e0 = len(it.events); self.n0 = len(it.imprecise); self.pc0 = tuple(it.pc)

    def intersect(self, F, **kw):
        it = self.it
        r = it.simp(self.w.meth(self.det, 'peaks_detector_intersection', self.pd, F, **kw)); self.c.use(self.w)
        return self.take(r)

    def take(self, r):
        it = self.it
        if not isinstance(r, Dct): raise V.Unsupported('peak dictionary %r' % (r,))
        self.out = it.heap[r.oid]
        self.p = it.td(it.simp(self.out['peaks']))
        self.names = list(it.iter_list(it.simp(self.out['columns'])))
        return self.p

    def events(self, *kinds): return [e for e in self.it.events[self.e0:] if e.kind in kinds]

    def col(self, i): return E(self.p.cells[0, i])

    def row0(self):
        """cells of the incoming row of a base variable v"""
        v = fresh(self.w.N)
        return v, [E(atom('peak_%d' % i, v)) for i in range(25)]

    def want_hit(self, p):
        s, zd, yd, an = hit(self.w, self.h, p[13:16], p[16:19])
        nan = E(tm.NAN)
        return ite(s < 0, nan, zd), ite(s < 0, nan, yd), an


def factor(p, sf, pol, lor):
    r = E(1)
    if sf: r = r * p[5]
    if pol: r = r * p[20]
    if lor: r = r * p[19]
    return r


SWITCH = [(a, b, d) for a in (True, False) for b in (True, False) for d in (True, False)]


def switches(s): return dict(use_structure_factor=s[0], use_polarization=s[1], use_lorentz=s[2])


def sw_name(s): return '+'.join(n for n, x in zip(('structure factor', 'polarization', 'lorentz'), s) if x) or 'no factors'


@check('C13')
def c13_detector(c):
    for s in SWITCH if c.thorough else ((True, True, True), (False, False, True), (False, False, False)):
        with c.scope('detector, %s' % sw_name(s)):
            d = DetScene(c, **switches(s)); w = d.w
            d.intersect(3)
            p = d.p
            v, q = d.row0()
            zd, yd, an = d.want_hit(q)
            I = factor(q, *s)
            inside = (zd >= 0) & (zd <= d.h['zmax']) & (yd >= 0) & (yd <= d.h['ymax'])
            ok = inside & E(tm.isfinite(I.t)) & (I > 0)
            row = p.axes[0]
            got = [(m, [E(tm.let({row: x}, p.cells[0, i])) for i in list(range(27))], b) for x, m, b in expand(row.args[0])]
            ok2 = inside & (I > 0) if not any(s) else ok
            compare_rows(c, 'rows kept are those that hit the rectangle with finite positive intensity', got, [(ok.t, q + [zd, yd], (v,))], 'xrd_simulator.detector:peaks_detector_intersection', [(inside.t, q + [zd, yd], (v,))] if not any(s) else [(ok2.t, q + [zd, yd], (v,))])


@check('C01')
def c01_detector(c):
    for F in (1, 4):
        with c.scope('detector table, %d frames' % F):
            d = DetScene(c); d.intersect(F); p = d.p
            c.holds('column names', d.names == NAMES + DETNAMES, loc_of(p), 'columns %s' % d.names)
            c.holds('one name per column', p.ndim == 2 and p.dims[1] == len(d.names), loc_of(p), 'table %s, %d names' % (p.dims, len(d.names)), unk=any(x.unk for x in p.cells.flat))
            detector_columns(c, d, F)
    with c.scope('rendered table'):
        for method in ('micro', 'nano', 'macro', 'auto'):
            with c.scope(method):
                d = DetScene(c)
                r = d.w.meth(d.det, 'render', d.pd, 2, method=method, verbose=False); c.use(d.w)
                fr, out = list(d.it.iter_list(d.it.simp(r)))
                d.take(d.it.simp(out))
                c.holds('column names', d.names == NAMES + DETNAMES, loc_of(d.p), 'columns %s' % d.names)
                c.holds('one name per column', d.p.ndim == 2 and d.p.dims[1] == len(d.names), loc_of(d.p), 'table %s' % (d.p.dims,))
                detector_columns(c, d, 2)


def detector_columns(c, d, F):
    """the columns of a row belong to one incoming row"""
    p, w = d.p, d.w
    q = [E(p.cells[0, i]) for i in range(25)]
    zd, yd, an = d.want_hit(q)
    row = p.axes[0]
    for x, m, b in expand(row.args[0]):
        if len(b) != 1: c.undecided('incoming row', 'rows over %s' % (b,)); continue
        for i in range(25): c.eq('%s is that of the incoming row' % NAMES[i], tm.let({row: x}, p.cells[0, i]), atom('peak_%d' % i, b[0]), guard=m, where=src(p.cells[0, i]))
    for i, nm, want in ((25, 'zd', zd), (26, 'yd', yd), (27, 'incident_angle', an), (29, 'intensity_factors', factor(q, True, True, True))):
        c.eq('%s is that of the row' % nm, p.cells[0, i], want)
    frames_are_bins(c, 'frame is the bin of the diffraction time of the row', p.cells[0, 28], q[6], F)


def frames_are_bins(c, name, got, t, F):
    """index of the equal bin of [0,1] containing t (either neighbour at an edge), clamped"""
    if F <= 1: return c.eq(name, got, E(0))
    out = []
    for op in (lambda a: E(a) < t, lambda a: E(a) <= t):
        n = E(0)
        for k in range(F + 1): n = n + ite(op(k / F), E(1), E(0))
        n = n - 1
        out.append(ite(n < 0, E(0), ite(n > F - 1, E(F - 1), n)))
        out.append(f_('min', f_('max', n, E(0)), E(F - 1)))
    n = E(0)
    for k in range(1, F): n = n + ite(E(k / F) < t, E(1), E(0))
    out.append(n)
    c.eq_any(name, got, out)


@check('C12')
def c12_factor(c):
    for s in SWITCH:
        with c.scope('intensity factor, %s' % sw_name(s)):
            d = DetScene(c, **switches(s)); d.intersect(2); p = d.p
            q = [E(p.cells[0, i]) for i in range(25)]
            c.eq('product of the enabled factors of the row', p.cells[0, 29], factor(q, *s))
    with c.scope('switching a factor after construction'):
        d = DetScene(c); it = d.it
        it.setattr_(d.det, 'lorentz_factor', False)
        d.intersect(2); p = d.p
        c.eq('product of the enabled factors of the row', p.cells[0, 29], factor([E(p.cells[0, i]) for i in range(25)], True, True, False))


@check('C11')
def c11_table(c):
    for F in (1, 2, 3, 5, 0, -3) + ((4, 7, 10, 16) if c.thorough else ()):
        with c.scope('%d frames' % F):
            d = DetScene(c); d.intersect(F)
            frames_are_bins(c, 'frame of a peak is the bin of its own time', d.p.cells[0, 28], E(d.p.cells[0, 6]), max(F, 1))
    for seq in ((5, 3), (1, 4), (2, 1)):
        with c.scope('%d frames after %d frames' % seq[::-1]):
            d = DetScene(c); d.intersect(seq[0]); d.intersect(seq[1])
            frames_are_bins(c, 'frame of a peak is the bin of its own time', d.p.cells[0, 28], E(d.p.cells[0, 6]), seq[1])
