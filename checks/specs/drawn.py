"""What the point renderers draw: C11, C12 and C15 over the frames as a function of the peak table."""
import hashlib, math
from engine import terms as tm
from ..field import FLane, Inexact, Outside
from ..lib import *
from engine.vals import *
from .detect import *
from .diffract import NAMES
from .render import scene, POINT


# ----------------------------------------------------------------------------- what the point renderers draw
class Drawn:
    """frames a point renderer returns, as a function of the rows of the peak table.

    The terms are derived once for a table of any length; `field` gives the value they take on an interpretation of the
    table.  Peaks are (frame, row, column, intensity factor, volume, width) with positions and widths in pixels."""
    def __init__(self, c, m, F=2, n=(22, 19), sigma=0.9):
        self.c = c; self.m = m; self.F = F; self.n = n; self.sigma = sigma
        self.d = d = scene(c, verbose=False, n_pixels=n)
        it = d.it
        self.q = 'hit'
        def model(it, args, kw):
            t = d.w.t('hit', tm.Base('hits'), 30, lib='torch', dtype='f64')
            d.hits = it.td(t)
            return it.mkD({**it.heap[d.pd.oid], 'peaks': t, 'columns': it.mkL(NAMES + DETNAMES)})
        it.exts['xrd_simulator.detector.Detector.peaks_detector_intersection'] = model
        r = it.simp(d.w.meth(d.det, 'render', d.pd, F, method=m)); c.use(d.w)
        fr, out = list(it.iter_list(r))
        self.td = it.td(it.simp(fr))
        self.deposits = [e for e in d.events('deposit') if e.data['n'] in accums(it, self.td)]
        self.loc = min((e.loc for e in self.deposits), default='xrd_simulator.detector:render')
        base = FLane(it)
        pz, py = [base.nv(scalar_of(it, d.w.attr(d.det, x)).t, {})[0].real for x in ('pixel_size_z', 'pixel_size_y')]
        self.pz, self.py = abs(pz), abs(py)
        c0 = it.td(it.simp(d.w.attr(d.det, 'det_corner_0')))
        self.dist = math.sqrt(sum(base.nv(x, {})[0].real ** 2 for x in c0.flat()))
        self.batch = [x for e in self.deposits for lv, k, line in e.loops if isinstance(k, tuple) and k[0] == 'batch' for x in (k[3],) if x.op != 'num']
        self.memo = {}
        th = d.it.simp(d.w.attr(d.det, 'kernel_threshold'))
        self.threshold = base.nv(scalar_of(it, th).t, {})[0].real

    def field(self, peaks, other=0.5, outer=1.0, batch=None, sigma=None, ang=20.0):
        """{(frame, row, column): value}"""
        k = (tuple(peaks), other, outer, batch, sigma, ang)
        if k in self.memo: return self.memo[k]
        tab = {}
        def col(j):
            def f(p):
                h = peaks[p]
                return {28: h[0], 25: h[1] * self.pz, 26: h[2] * self.py, 29: h[3], 21: h[4], 27: ang,
                        23: h[5] * self.pz / self.dist * math.cos(math.radians(ang))}.get(j, other + 0.01 * j if other else 0.0)
            return f
        for j in range(30): tab['hit_%d' % j] = col(j)
        sg = self.sigma if sigma is None else sigma
        tab['gsig'] = lambda: sg
        ln = FLane(self.d.it, given=self.d.pc0, sizes={'hits': len(peaks)}, table=tab, outer=outer,
                   values={x: batch for x in self.batch} if batch else None)
        try: r = {k2: v.real for k2, v in ln.frames(self.td).items() if abs(v) > 0}
        except Outside as x: r = x
        self.memo[k] = r
        return r


def accums(it, td):
    """numbers of the deposits a tensor is made of (deposits into values of other deposits included)"""
    todo = [tm.walk(x) for x in td.flat()]; out = set()
    dep = {e.data['n']: e for e in it.events if e.kind == 'deposit'}
    while todo:
        for x in todo.pop():
            if x.op == 'u' and str(x.args[0]).startswith(('accum', '?put')):
                n = int(x.args[0][5 if x.args[0][0] == 'a' else 4:])
                if n not in out:
                    out.add(n)
                    e = dep[n]
                    todo += [tm.walk(y) for y in e.data['td'].flat()]
    return out


WIDTHS = {'micro': (0.5,), 'nano': (0.001, 0.3, 1.0, 1.85)}     # full widths in pixels (nano: Gaussian spots, narrow and wide Airy spots)
AT = (10.3, 9.6)
def BATCHES(D):
    """the ways the rows of a table may be taken: all at once, one by one, two by two"""
    return [('', {}), (', drawn in batches', dict(outer=1e-14, batch=1))] + ([(', drawn in batches of two', dict(batch=2))] if D.batch else [])


_drawn = {}
def drawn(c, m, F=2, **kw):
    k = (m, F, tuple(kw.items()))
    if k not in _drawn: _drawn[k] = Drawn(c, m, F, **kw)
    _drawn[k].c = c
    c.use(_drawn[k].d.w)
    return _drawn[k]


class Pictures:
    """relations between frames drawn from related tables; a table the interpretation cannot follow decides nothing"""
    def __init__(self, c, D): self.c = c; self.D = D

    def __call__(self, peaks, **kw):
        r = self.D.field(peaks, **kw)
        if isinstance(r, Outside):
            self.c.holds('intensity is deposited inside the frame', False, r.e.loc, 'position outside the frame (%s) for peaks %s' % (r, peaks))
            raise Stop
        return r

    def same(self, name, a, b, tol=1e-6, where=''):
        top = max([abs(v) for v in list(a.values()) + list(b.values()) if v == v] or [0])
        ok = lambda x, y: x == y or abs(x - y) <= tol * top + 1e-30 and not math.isinf(top)
        bad = next((k for k in set(a) | set(b) if not ok(a.get(k, 0), b.get(k, 0))), None)
        self.c.holds(name, bad is None, where or self.D.loc, '' if bad is None else 'at %s: %.6g and %.6g' % (bad, a.get(bad, 0), b.get(bad, 0)))


def total(r, f=None): return sum(v for k, v in r.items() if f is None or k[0] == f)

def centre(r, f):
    t = total(r, f)
    return tuple(sum(k[j] * v for k, v in r.items() if k[0] == f) / t for j in (1, 2)) if t else (math.nan, math.nan)

def spread(r, f):
    t = total(r, f); z, y = centre(r, f)
    return sum(((k[1] - z) ** 2 + (k[2] - y) ** 2) * v for k, v in r.items() if k[0] == f) / t if t else math.nan


@check('C11')
def c11_drawn(c):
    for m in ('micro', 'nano', 'macro'):
        for F in (1, 2, 3, 0, -2) + ((5, 8) if c.thorough else ()):
            with c.scope('%s, %d frames' % (m, F)):
                d = scene(c, verbose=False)
                r = d.it.simp(d.w.meth(d.det, 'render', d.pd, F, method=m)); c.use(d.w)
                td = d.it.td(d.it.simp(list(d.it.iter_list(r))[0]))
                px = d.it.td(d.it.simp(d.w.attr(d.det, 'pixel_coordinates')))
                shaped(c, 'one image of the pixel grid per frame', td, (max(F, 1),) + tuple(px.dims[:2]))
    for m in POINT:
        with c.scope(m):
            D = drawn(c, m, 3); p = Pictures(c, D)
            for w in WIDTHS[m][:: 1 if c.thorough else 2]:
                for f in range(3):
                    r = p([(f,) + AT + (2., 3., w)])
                    c.holds('a peak of frame %d is drawn (width %g)' % (f, w), total(r, f) > 0.1, D.loc, 'nothing is drawn')
                    c.holds('a peak of frame %d appears in no other frame (width %g)' % (f, w), all(abs(v) < 1e-9 for k, v in r.items() if k[0] != f), D.loc, 'drawn in frames %s' % sorted({k[0] for k in r}))
                many = [(2, 8.2, 9.1, 2., 1., w), (0, 10.1, 8.7, 3., 2., w), (1, 10.4, 9.3, 1., 5., w), (0, 12.3, 9.9, 1., 1., w)]
                for nm, kw in BATCHES(D):
                    for order in ((0, 1, 2, 3), (3, 1, 2, 0)) if kw else ((0, 1, 2, 3),):
                        r = p([many[j] for j in order], **kw)
                        for f, t in ((0, 7.), (1, 5.), (2, 2.)):
                            c.holds('frame %d of a table of several peaks has the intensity of its own ones (width %g)%s' % (f, w, nm), 0.9 * t < total(r, f) < 1.03 * t, D.loc, 'total %.4g, peaks of the frame %.4g' % (total(r, f), t))
            if len(WIDTHS[m]) > 1:
                for nm, kw in BATCHES(D):
                    r = p([(1, 8.2, 9.1, 2., 1., WIDTHS[m][1]), (0, 10.1, 8.7, 3., 2., WIDTHS[m][3]), (2, 10.4, 9.3, 1., 5., WIDTHS[m][2])], **kw)
                    for f, t in ((0, 6.), (1, 2.), (2, 5.)):
                        c.holds('frame %d of a table of peaks of different widths has the intensity of its own ones%s' % (f, nm), 0.9 * t < total(r, f) < 1.03 * t, D.loc, 'total %.4g, peaks of the frame %.4g' % (total(r, f), t))


@check('C12')
def c12_drawn(c):
    for m in POINT:
        with c.scope(m):
            D = drawn(c, m); p = Pictures(c, D)
            for w in WIDTHS[m]:
                a = p([(0,) + AT + (2., 3., w)])
                c.holds('a peak is drawn (width %g)' % w, total(a, 0) > 0.1, D.loc, 'nothing is drawn')
                for nm, I, v in (('intensity factor', 10., 3.), ('grain volume', 2., 15.), ('both', 0.02, 0.3), ('product of two tiny numbers', 1e-6, 1e-4), ('product of two huge numbers', 1e7, 1e5)):
                    b = p([(0,) + AT + (I, v, w)])
                    p.same('intensity proportional to the %s (width %g)' % (nm, w), {k: x * I * v / 6 for k, x in a.items()}, b, 1e-4)
                p.same('other columns of the table do not matter (width %g)' % w, a, p([(0,) + AT + (2., 3., w)], other=7.3))
                p.same('nothing is drawn for a factor of zero (width %g)' % w, p([(0,) + AT + (0., 3., w)]), {}, 1e-6)
            D = drawn(c, m, 4); p = Pictures(c, D)
            own = [(2, 9.7, 9.1, 3., 2., 4), (0, 10.3, 9.6, 2., 5., 1), (3, 10.9, 8.8, 7., 1., 2), (1, 9.2, 9.9, 1., 1., 3)]
            mixed = [WIDTHS[m][j % len(WIDTHS[m])] for j in (1, 3, 0, 2)]
            for w in WIDTHS[m] + ((mixed, mixed[::-1]) if len(WIDTHS[m]) > 1 else ()):
                t = [o[:5] + (w if isinstance(w, float) else w[j],) for j, o in enumerate(own)]
                if not isinstance(w, float): w = w[0]
                for nm, kw in BATCHES(D):
                    r = p(t, **kw)
                    for o in t: c.holds('every peak of a table gets its own factor and volume (width %g)%s' % (w, nm), 0.93 < total(r, o[0]) / (o[3] * o[4]) < 1.03, D.loc, 'total %.4g instead of %g' % (total(r, o[0]), o[3] * o[4]))


@check('C18')
def c18_drawn(c):
    """the machine (free memory) has no influence on what is drawn"""
    for m in POINT:
        with c.scope(m):
            D = drawn(c, m, n=(26, 26)) if m == 'nano' else drawn(c, m); p = Pictures(c, D)
            for w in WIDTHS[m] + ((5.0,) if m == 'nano' else ()):
                t = [(1, 11.2, 8.6, 1., 4., w), (0, 12.4, 9.3, 2., 1., w), (1, 9.1, 10.4, 3., 1., w)]
                ref = p(t)
                for free in (1e-14, 0.2, 0.45, 60.) if c.thorough or w == 5.0 else (1e-14, 0.3, 60.):
                    p.same('the frames do not depend on the memory that is free (width %g, %g GB)' % (w, free), p(t, outer=free), ref)


@check('C15')
def c15_drawn(c):
    for m in POINT:
        for sg in (0.9,) + ((1.6, 0.4) if m == 'micro' or c.thorough else ()):
            with c.scope('%s, point spread of %g pixels' % (m, sg)):
                D = drawn(c, m); q = Pictures(c, D)
                p = lambda peaks, **kw: q(peaks, sigma=sg, **kw)
                H, W = D.n
                lost = 0.01 + (D.threshold if m == 'nano' else 0.02)
                for w in WIDTHS[m]:
                    n = ' (width %g)' % w
                    for at in (AT, (11., 8.), (9.51, 10.02), (10.48, 8.97)):
                        a = p([(0,) + at + (2., 3., w)])
                        t = total(a, 0) / 6
                        if at is AT: c.holds('a weak peak keeps its intensity%s' % n, abs(total(p([(0,) + at + (1e-6, 1e-4, w)]), 0) / 1e-10 - t) < 0.01, D.loc, 'drawn intensity is %.5g of the peak' % (total(p([(0,) + at + (1e-6, 1e-4, w)]), 0) / 1e-10))
                        c.holds('a peak inside the frame keeps its intensity%s' % n, 1 - lost <= t <= 1.01, D.loc, 'drawn intensity is %.5g of the peak at row %g, column %g' % ((t,) + at))
                        z, y = centre(a, 0)
                        c.holds('it is centred on its position%s' % n, abs(z - at[0]) < 0.006 and abs(y - at[1]) < 0.006, D.loc, 'centred on row %.4g, column %.4g instead of %g, %g' % ((z, y) + at))
                        c.holds('no pixel gets a negative intensity%s' % n, all(v > -1e-9 for v in a.values()), D.loc, 'negative intensity')
                    a = p([(0, 10.3, 9.1, 2., 3., w)]); b = p([(0, 10.1, 9.3, 2., 3., w)])
                    q.same('the spot is symmetric in rows and columns%s' % n, a, {(f, 10 + j - 9, 9 + i - 10): v for (f, i, j), v in b.items()}, 0.02)
                    b = p([(0, 9.7, 9.1, 2., 3., w)])
                    q.same('the spot is the same in both directions%s' % n, a, {(f, 20 - i, j): v for (f, i, j), v in b.items()}, 0.02)
                    one, two = (1, 11.2, 8.6, 1., 4., w), (1, 9.1, 10.4, 3., 1., w)
                    both = p([one, two])
                    q.same('peaks of a frame add up%s' % n, {k: p([one]).get(k, 0) + p([two]).get(k, 0) for k in both}, both, 1e-4)
                    q.same('in any order%s' % n, p([two, one]), both)
                    three = [one, two, (0, 12.4, 9.3, 2., 1., w), one]
                    whole = p(three)
                    q.same('and in whatever batches they are drawn%s' % n, p(three, outer=1e-14, batch=1), whole, 1e-4)
                    if D.batch: q.same('and in batches of two%s' % n, p(three, batch=2), whole, 1e-4)
                    # edges
                    mid = p([(0, 10., 9., 2., 3., w)])
                    top = max(mid.values(), default=0)
                    for i, j in ((0, 9), (H - 1, 9), (10, 0), (10, W - 1), (0, 0), (H - 1, W - 1), (0, W - 1), (1, 9), (H - 2, 9), (10, W - 2), (H - 2, 1)):
                        e = p([(0, float(i), float(j), 2., 3., w)])
                        edge(c, D, 'near the edge, at row %d, column %d%s' % (i, j, n), e, mid, i - 10, j - 9, top, m, (i in (0, H - 1)) + (j in (0, W - 1)), (i, j))
                    frac = p([(0, 10.3, 9.3, 2., 3., w)])
                    for i, j in ((0, 0), (H - 1, 9), (10, W - 1), (H - 1, W - 1), (-1, 9), (10, -1)):
                        e = p([(0, i + 0.3, j + 0.3, 2., 3., w)])
                        edge(c, D, 'across the edge, at row %g, column %g%s' % (i + 0.3, j + 0.3, n), e, frac, i - 10, j - 9, top, m, None, (i, j))
                if m == 'nano':
                    for ang in (20., 0., 55.):
                        for w in (4.0, 2.8):
                            a = q([(0, 11., 9., 1., 1., w)], sigma=0.15, ang=ang)
                            prof = [a.get((0, 11, 9 + k), 0) for k in range(5)]
                            k = w / 2; i = int(k); v = prof[i] + (prof[i + 1] - prof[i]) * (k - i)
                            c.holds('spot of the Scherrer width seen on the detector (width %g, incidence %g degrees)' % (w, ang), prof[0] > 0 and 0.36 < v / prof[0] < 0.64, D.loc, 'at half the width the spot has %.4g of its maximum' % (v / prof[0] if prof[0] else math.nan))
                    own = [p([(0, 10.3, 9.6, 1., 2., w)]) for w in WIDTHS[m]]
                    for order in ((0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)):
                        D4 = drawn(c, m, 4); q4 = Pictures(c, D4)
                        r = q4([(f, 10.3, 9.6, 1. + f, 2., WIDTHS[m][k]) for f, k in enumerate(order)], sigma=sg)
                        for f, k in enumerate(order):
                            c.holds('a spot has its own width among others (width %g)' % WIDTHS[m][k], abs(spread(r, f) - spread(own[k], 0)) < 0.3 * spread(own[k], 0), D.loc, 'spread %.4g, drawn alone %.4g' % (spread(r, f), spread(own[k], 0)))
                            c.holds('and its own intensity and position (width %g)' % WIDTHS[m][k], abs(total(r, f) / 2 / (1 + f) - 1) < lost and abs(centre(r, f)[0] - 10.3) + abs(centre(r, f)[1] - 9.6) < 0.1, D.loc, 'intensity %.4g at %s' % (total(r, f) / 2 / (1 + f), centre(r, f)))


def edge(c, D, name, got, mid, dz, dy, top, m, sides, at):
    """the part of the spot inside the frame, and nothing else"""
    H, W = D.n
    want = {(f, i + dz, j + dy): v for (f, i, j), v in mid.items() if 0 <= i + dz < H and 0 <= j + dy < W}
    extra = [(k, got.get(k, 0), want.get(k, 0)) for k in got if got.get(k, 0) > want.get(k, 0) + 0.02 * top]
    c.holds('only the part inside is drawn ' + name, not extra, D.loc, 'more than the spot itself at %s' % (extra[:1],))
    if m == 'micro':
        less = [(k, got.get(k, 0), want[k]) for k in want if got.get(k, 0) < want[k] - 0.02 * top]
        c.holds('all of the part inside is drawn ' + name, not less, D.loc, 'less than the spot itself at %s' % (less[:1],))
    elif sides is not None:
        # the response is convolved after the spots are cut, so at least half (a quarter in a corner) of the centre remains
        k = (0,) + at
        c.holds('all of the part inside is drawn ' + name, got.get(k, 0) >= want.get(k, 0) * 0.5 ** sides - 1e-3 * top if sides else got.get(k, 0) > 0.75 * want.get(k, 0), D.loc, 'pixel %s has %.4g of %.4g' % (at, got.get(k, 0), want.get(k, 0)))


# ----------------------------------------------------------------------------- what the macro renderer draws
def tetra(v):
    """equations, volume of the tetrahedron with the corners v (outward normals)"""
    g = [sum(p[i] for p in v) / 4 for i in range(3)]
    eq = []
    for k in range(4):
        a, b, d = [v[j] for j in range(4) if j != k]
        x = [b[i] - a[i] for i in range(3)]; y = [d[i] - a[i] for i in range(3)]
        n = cross3(x, y); l = math.sqrt(sum(i * i for i in n)) or 1.0
        n = [i / l for i in n]
        if sum(n[i] * (g[i] - a[i]) for i in range(3)) > 0: n = [-i for i in n]
        eq.append(n + [-sum(n[i] * a[i] for i in range(3))])
    x, y, z = [[v[k][i] - v[0][i] for i in range(3)] for k in (1, 2, 3)]
    return eq, abs(sum(i * j for i, j in zip(x, cross3(y, z)))) / 6


def hash_(*k): return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=4).digest(), 'little')


def cross3(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot3(a, b): return sum(x * y for x, y in zip(a, b))


class Macro(Drawn):
    """elements: corners in the sample; peaks: (frame, element, scattered direction, time, intensity factor)"""
    C0 = (11., 3.4, -3.); SZ = (0.3, 0.1, 6.6); N = (22, 27)
    ANGLE = 0.4; AXIS = (0., 0.6, 0.8); SHIFT = (0.02, 0.3, -0.2); ORIGIN = (0.5, -0.3, 0.1)

    def __init__(self, c, F=2, size=None):
        self.c = c; self.F = F; self.size = size
        kw = dict(verbose=False, n_pixels=self.N) if size is None else dict(verbose=False)
        self.d = d = scene(c, **kw); it = d.it; w = d.w
        self.args = []
        def hits(it, args, kw):
            t = w.t('hit', tm.Base('hits'), 30, lib='torch', dtype='f64')
            d.hits = it.td(t)
            return it.mkD({**it.heap[d.pd.oid], 'peaks': t, 'columns': it.mkL(NAMES + DETNAMES)})
        it.exts['xrd_simulator.detector.Detector.peaks_detector_intersection'] = hits
        def isect(it, args, kw):
            k = {**dict(zip(('self', 'vertices'), args)), **kw}
            td = it.to_td(k['vertices'])
            if td.dims != (4, 3): raise V.Unsupported('clipping of %s' % (td.dims,))
            self.args.append((k['self'], td, it.loc if hasattr(it, 'loc') else ''))
            vs = list(td.flat())
            def mk(nm, shape, dt='f64'):
                cells = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape): cells[i] = atom('%s%s' % (nm, ''.join('_%d' % j for j in i)), *vs)
                return it.newT(TD(shape, (None,) * len(shape), cells, dt, 'numpy'))
            o = it.mkO('scipy.spatial.ConvexHull', {'points': it.newT(td.repl(lib='numpy', root=None)), 'equations': mk('hull_eq', (4, 4)),
                'simplices': it.newT(const_td(np.array([[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]), 'i64', 'numpy')), 'vertices': it.newT(const_td(np.arange(4), 'i64', 'numpy')),
                'volume': Sym(atom('hull_volume', *vs), 'float'), 'area': Sym(atom('hull_area', *vs), 'float'), 'npoints': 4, 'nsimplex': 4, 'ndim': 3})
            return Phi(tm.batom('nohull', *vs), None, o)
        it.exts['xrd_simulator.beam.Beam._intersect'] = isect
        r = it.simp(w.meth(d.det, 'render', d.pd, F, method='macro')); c.use(w)
        self.td = it.td(it.simp(list(it.iter_list(r))[0]))
        self.deposits = [e for e in d.events('deposit') if e.data['n'] in accums(it, self.td)]
        self.loc = min((e.loc for e in self.deposits), default='xrd_simulator.detector:render')
        self.memo = {}
        sy = cross3(self.SZ, (-1., 0.2, 0.))         # orthogonal to the z side
        self.SY = [x * (1.2 if size else 0.86) for x in sy]          # (either side is the longer one)
        self.lz, self.ly = math.sqrt(dot3(self.SZ, self.SZ)), math.sqrt(dot3(self.SY, self.SY))
        self.zh = [x / self.lz for x in self.SZ]; self.yh = [x / self.ly for x in self.SY]
        self.px = size or (self.lz / self.N[0], self.ly / self.N[1])
        if size: self.N = math.ceil(self.lz / size[0]), math.ceil(self.ly / size[1])
        self.n = self.N

    def moved(self, x, t):
        v = [a - b for a, b in zip(x, self.ORIGIN)]
        s, k = math.sin(self.ANGLE * t), math.cos(self.ANGLE * t)
        u = self.AXIS; kr = cross3(u, v); kd = dot3(u, v) * (1 - k)
        return [v[i] * k + kr[i] * s + u[i] * kd + self.ORIGIN[i] + self.SHIFT[i] * t for i in range(3)]

    def table(self, elements, peaks, extra=None):
        nodes = [p for e in elements for p in e]
        tab = {}
        cols = {}
        for j in range(30):
            def f(p, j=j):
                fr, el, k, t, I = peaks[p]
                return {28: fr, 0: el, 6: t, 29: I, 13: k[0], 14: k[1], 15: k[2], 21: 77.}.get(j, 0.31 + 0.01 * j)
            tab['hit_%d' % j] = f
        for i in range(3):
            tab['coord_%d' % i] = lambda n, i=i: nodes[n][i]
            tab['det0_%d' % i] = lambda i=i: self.C0[i]
            tab['det1_%d' % i] = lambda i=i: self.SZ[i]
            tab['det2_%d' % i] = lambda i=i: self.SY[i]
            tab['rot_axis_%d' % i] = lambda i=i: self.AXIS[i]
            tab['translation_%d' % i] = lambda i=i: self.SHIFT[i]
            tab['origin_%d' % i] = lambda i=i: self.ORIGIN[i]
        for i in range(4): tab['enod_%d' % i] = lambda e, i=i: 4 * e + i
        tab['rot_angle'] = lambda: self.ANGLE
        tab['gsig'] = lambda: 0.05
        if self.size: tab['pixel_size_z'], tab['pixel_size_y'] = (lambda: self.size[0]), (lambda: self.size[1])
        hull = {}
        def geo(*v):
            if v not in hull: hull[v] = tetra([v[3 * i:3 * i + 3] for i in range(4)])
            return hull[v]
        def num_(f): f.numbers = True; return f
        for i in range(4):
            for j in range(4): tab['hull_eq_%d_%d' % (i, j)] = num_(lambda *v, i=i, j=j: geo(*v)[0][i][j])
        tab['hull_volume'] = num_(lambda *v: geo(*v)[1])
        tab['hull_area'] = num_(lambda *v: 0.5 * sum(math.sqrt(dot3(n, n)) for n in [cross3([v[3 * b + i] - v[3 * a + i] for i in range(3)], [v[3 * d + i] - v[3 * a + i] for i in range(3)]) for a, b, d in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))]))
        tab['nohull'] = lambda *v: False
        tab['rng'] = lambda n, *k: hash_(n, k) % 4
        return tab

    def field(self, elements, peaks, **kw):
        k = (tuple(elements), tuple(peaks), tuple(kw.items()))
        if k in self.memo: return self.memo[k]
        tab = self.table(elements, peaks); tab.update(kw)
        ln = FLane(self.d.it, given=self.d.pc0, sizes={'hits': len(peaks), 'nodes': 4 * len(elements), 'elements': len(elements)}, table=tab)
        try: r = {k2: v.real for k2, v in ln.frames(self.td).items() if v != 0}
        except Outside as x: r = x
        self.memo[k] = r
        return r

    def seen(self, elements, pk):
        """{pixel: length of its ray inside the element}, volume, box (z, y extremes in pixels) of one peak"""
        fr, el, k, t, I = pk
        v = [self.moved(p, t) for p in elements[el]]
        eq, vol = tetra(v)
        l = math.sqrt(dot3(k, k)); u = [x / l for x in k]
        nrm = cross3(self.zh, self.yh); out = {}
        pz, py = self.px
        box = []
        for p in v:
            s = dot3([self.C0[i] - p[i] for i in range(3)], nrm) / dot3(u, nrm)
            h = [p[i] + s * u[i] - self.C0[i] for i in range(3)]
            box.append((dot3(h, self.zh) / pz, dot3(h, self.yh) / py))
        for i in range(self.N[0]):
            for j in range(self.N[1]):
                x = [self.C0[m] + i * pz * self.zh[m] + j * py * self.yh[m] for m in range(3)]
                lo, hi = -math.inf, math.inf
                for n in eq:
                    a, b = dot3(n, u), -(dot3(n, x) + n[3])
                    if a < 0: lo = max(lo, b / a)
                    elif a > 0: hi = min(hi, b / a)
                if hi > lo + 1e-12: out[i, j] = hi - lo
        return out, vol, box

    def want(self, elements, peaks):
        out = {}
        for pk in peaks:
            w, vol, box = self.seen(elements, pk); t = sum(w.values())
            for q, x in w.items(): out[(pk[0],) + q] = out.get((pk[0],) + q, 0) + pk[4] * vol * x / t
        return out


class MacroPictures(Pictures):
    def __call__(self, elements, peaks, **kw):
        r = self.D.field(elements, peaks, **kw)
        if isinstance(r, Outside):
            self.c.holds('intensity is deposited inside the frame', False, r.e.loc, 'position outside the frame (%s) for peaks %s' % (r, peaks))
            raise Stop
        return r


def grow(e, f, s=(0, 0, 0)): return tuple(tuple(x * f + d for x, d in zip(p, s)) for p in e)

E0 = ((.1, .2, .3), (1.3, .1, .2), (.2, 1.5, .3), (.3, .4, 1.6))
E1 = ((-.6, .5, -.8), (.5, .2, -1.0), (-.2, -.9, -.7), (-.3, -.2, .5))
E2 = ((-.2, -1.2, -.3), (.3, -1.4, -1.0), (-.1, -.6, -1.7), (.6, -1.7, -1.2))
K0 = (1., .1, .05)
_macro = {}
def macro(c, **kw):
    k = tuple(kw.items())
    if k not in _macro: _macro[k] = Macro(c, **kw)
    _macro[k].c = c; c.use(_macro[k].d.w)
    return _macro[k]


@check('C28')
def c28(c):
    with c.scope('chords'):
        D = macro(c); p = MacroPictures(c, D)
        c.true('the illuminated part of an element is asked for', bool(D.args), D.loc)
        for beam, td, loc in D.args: c.holds('elements are clipped by the beam of the diffraction', beam is D.d.beam or beam == D.d.beam, loc or D.loc, 'clipped by %r' % (beam,))
        many = [('an element', [E0], [(0, 0, K0, .5, 2.)]),
                ('another element of the mesh', [E1, E0, E2], [(0, 1, K0, .5, 2.)]),
                ('the last element', [E1, E0, E2], [(1, 2, K0, .2, 2.)]),
                ('a strongly deflected ray', [E1, E0], [(0, 1, (1., -.02, -.14), .9, 3.)]),
                ('a ray along the detector normal', [E1, E0], [(1, 1, tuple(cross3(D.zh, D.yh)), .9, 3.)]),
                ('a long scattering vector', [E1, E0], [(0, 0, tuple(7.3 * x for x in K0), 0.3, 3.)]),
                ('the beginning of the motion', [E1, E0], [(0, 0, K0, 0., 3.)]),
                ('the end of the motion', [E1, E0], [(1, 1, K0, 1., 3.)]),
                ('peaks of two frames', [E1, E0, E2], [(1, 1, K0, .2, 3.), (0, 2, (1., .05, .12), .7, .4)]),
                ('overlapping peaks of one frame', [E1, E0, E2], [(0, 1, K0, .2, 3.), (0, 0, (1., -.1, .1), .7, .4), (0, 0, (1., .05, .12), .1, .7)]),
                ('the same peak twice', [E0], [(0, 0, K0, .5, 2.), (0, 0, K0, .5, 2.)])]
        if c.thorough:
            for i, k in enumerate(((1., 0., 0.), (1., .2, .2), (1., -.2, .1), (1., .1, -.25), (2., -.3, -.3))):
                for j, t in enumerate((0., .33, .66, 1.)): many.append(('ray %d at time %g' % (i, t), [E0, E1, E2], [(0, (i + j) % 3, k, t, 1.5)]))
        for n, els, pk in many:
            want = D.want(els, pk)
            p.same('path lengths through the illuminated element, normalised to its volume: ' + n, want, p(els, pk), 1e-5)
            c.true('(the spot is seen)', len(want) > 5 * len({q[0] for q in pk}), D.loc)
        els, pk = [E1, E0], [(0, 0, K0, .4, 2.), (1, 1, K0, .4, 5.)]
        p.same('frames do not depend on the order of the peaks', p(els, pk), p(els, pk[::-1]))
        p.same('nothing is drawn for an element the beam misses', p([E0], [(0, 0, K0, .5, 2.)], nohull=lambda *v: True), {})
    with c.scope('a last row and column of incomplete pixels'):
        D = macro(c, size=(0.29, 0.31)); p = MacroPictures(c, D)
        k = tuple(cross3(D.zh, D.yh)); H, W = D.N
        for n, z, y in (('inside', 9.2, 8.3), ('last row', H - 4.6, 8.3), ('last column', 9.2, W - 4.4), ('both', H - 4.6, W - 4.4)):
            e = put_at(D, [(z, y, 0.), (z + 3.9, y + .3, .1), (z + .6, y + 3.8, 0.), (z + 3.2, y + 3.1, 1.4)], .3); pk = (0, 0, k, .3, 2.)
            want = D.want([e], [pk])
            c.true('(the last pixels are reached)', len(want) > 3 and ('row' not in n and n != 'both' or max(q[1] for q in want) == H - 1) and ('column' not in n or max(q[2] for q in want) == W - 1), D.loc)
            p.same('path lengths through the illuminated element: ' + n, want, p([e], [pk]), 1e-5)
    with c.scope('intensities'):
        D = macro(c); p = MacroPictures(c, D)
        one = p([E1], [(0, 0, K0, .4, 2.)])
        for x in (math.nan, math.inf, -math.inf):
            p.same('a factor of %g does not reach the frames' % x, {k: v for k, v in one.items()}, p([E1, E0], [(0, 0, K0, .4, 2.), (0, 1, K0, .3, x)]))
    with c.scope('small elements'):
        D = macro(c); p = MacroPictures(c, D)
        for f in (0.004, 0.05, 0.12, 0.2, 0.3):
            for q in ((0., 0., 0.), (.1, .13, .09), (.1, .0, .17)):
                e = grow(E1, f, q); pk = (0, 0, K0, .6, 2.)
                w, vol, box = D.seen([e], pk)
                r = p([e], [pk])
                inside(c, D, 'a small element', r, 2 * vol, box)
    with c.scope('few pixels'):
        D = macro(c); p = MacroPictures(c, D)
        k = tuple(cross3(D.zh, D.yh))
        for n, z, y in (('in a row', (8.1, 8.8), (6.2, 9.7)), ('in a column', (8.2, 11.7), (6.1, 6.8)), ('of two rows', (8.6, 9.4), (6.2, 9.7)), ('of two columns', (8.2, 11.7), (6.6, 7.4)), ('of one pixel', (8.2, 8.7), (6.2, 6.8)), ('in four pixels', (7.6, 8.3), (5.7, 6.4)),
                        ('of the first row', (.1, .8), (6.2, 9.7)), ('of the first column', (8.2, 11.7), (.1, .8)), ('of the first pixel', (.2, .8), (.15, .7)), ('of the last row', (D.N[0] - .9, D.N[0] - .2), (6.2, 9.7)), ('of the last pixel', (D.N[0] - .9, D.N[0] - .3), (D.N[1] - .8, D.N[1] - .2))):
            for t in (0., 1.):
                e = put_at(D, [(z[0], y[0], 0.), (z[1], y[0], .1), (z[0] + .4 * (z[1] - z[0]), y[1], 0.), (z[0], .5 * y[0] + .5 * y[1], .4)], t); pk = (0, 0, k, t, 2.)
                w, vol, box = D.seen([e], pk)
                inside(c, D, 'an element %s' % n, p([e], [pk]), 2 * vol, box)
    with c.scope('the point spread'):
        D = macro(c); p = MacroPictures(c, D)
        for n, els, pk in (('an element', [E0], (0, 0, K0, .5, 2.)), ('a small element', [grow(E1, .2)], (1, 0, K0, .5, 2.))):
            a = p(els, [pk])
            for g in (0.6, 0.9):
                b = p(els, [pk], gsig=lambda g=g: g)
                ta, tb = sum(a.values()), sum(b.values())
                c.holds('the point spread keeps the intensity of %s' % n, abs(ta - tb) < 1e-5 * ta, D.loc, '%g becomes %g' % (ta, tb))
                for i, ax in ((1, 'z'), (2, 'y')):
                    ca, cb = [sum(v * k[i] for k, v in q.items()) / sum(q.values()) for q in (a, b)]
                    va, vb = [sum(v * (k[i] - cc) ** 2 for k, v in q.items()) / sum(q.values()) for q, cc in ((a, ca), (b, cb))]
                    c.holds('the point spread leaves the centre of %s where it is (%s)' % (n, ax), abs(ca - cb) < 1e-3, D.loc, '%g becomes %g' % (ca, cb))
                    c.holds('the image of %s is widened by the point spread (%s)' % (n, ax), 0.5 * g * g < vb - va < 1.3 * g * g, D.loc, 'by %g for a variance of %g' % (vb - va, g * g))
    with c.scope('thin elements'):
        D = macro(c); p = MacroPictures(c, D)
        for q in (0.0, 0.03, 0.08, 0.11, 0.19, 0.25):
            e = tuple((x, 0.1 + q + 1e-3 * (x + z) + 2e-3 * i, z) for i, (x, y, z) in enumerate(E0))
            pk = (1, 0, K0, 0., 2.)
            w, vol, box = D.seen([e], pk)
            inside(c, D, 'an element that hardly any pixel ray meets', p([e], [pk]), 2 * vol, box)
    with c.scope('edges'):
        D = macro(c); p = MacroPictures(c, D)
        for n, sh in (('low z', (0, 0, -2.3)), ('high z', (0, 0, 3.5)), ('low y', (0, 3.6, 0)), ('high y', (0, -2.0, 0)), ('corner', (0, 3.2, -2.2)), ('other corner', (0, -1.7, 3.3)),
                      ('beyond low z', (0, 0, -9.)), ('beyond high z', (0, 0, 9.)), ('beyond low y', (0, 9., 0)), ('beyond high y', (0, -9., 0))):
            e = grow(E1, 1., sh); pk = (0, 0, (1., 0., .02), 0.1, 2.)
            w, vol, box = D.seen([e], pk); t = sum(w.values())
            r = p([e], [pk])
            if 'beyond' in n: p.same('nothing is drawn for an element seen outside of the detector: ' + n, {}, r); continue
            g = sum(r.values())
            c.true('(an element at the edge)', len(w) > 4 and any(b[0] < 0 or b[1] < 0 or b[0] > D.N[0] or b[1] > D.N[1] for b in box), D.loc)
            c.holds('no more than the volume is drawn: ' + n, 0 < g < 2 * vol * (1 + 1e-5), D.loc, '%g of %g' % (g, 2 * vol))
            p.same('path lengths at the edge of the detector: ' + n, {(0,) + k: x / t for k, x in w.items()}, {k: v / g for k, v in r.items()} if g else {}, 1e-5)


    with c.scope('few pixels at the edge'):
        D = macro(c); p = MacroPictures(c, D)
        k = tuple(cross3(D.zh, D.yh))
        for n, z, y in (('low z', (-2.6, .7), (8.2, 9.6)), ('high z', (20.6, 24.3), (8.2, 9.6)), ('low y', (8.2, 9.6), (-2.6, .7)), ('high y', (8.2, 9.6), (25.6, 29.3)), ('corner', (-1.6, 1.5), (-1.7, 1.6)), ('last pixel', (20.3, 21.8), (25.2, 26.9))):
            for t in (0., 1.):
                e = put_at(D, [(z[0], y[0], 0.), (z[1], y[0], .1), (.5 * z[0] + .5 * z[1], y[1], 0.), (z[0], .5 * y[0] + .5 * y[1], .4)], t); pk = (0, 0, k, t, 2.)
                w, vol, box = D.seen([e], pk)
                r = p([e], [pk])
                inside(c, D, 'an element on few pixels at the edge (%s)' % n, r, None, box)


def put_at(D, pts, t):
    """element whose corners at time t lie over the given positions (pixels) of the detector"""
    pz, py = D.px; n = cross3(D.zh, D.yh); out = []
    for z, y, h in pts:
        x = [D.C0[i] + z * pz * D.zh[i] + y * py * D.yh[i] - (9. + h) * n[i] for i in range(3)]
        x = [x[i] - D.SHIFT[i] * t - D.ORIGIN[i] for i in range(3)]
        s, q = math.sin(-D.ANGLE * t), math.cos(D.ANGLE * t); u = D.AXIS; kr = cross3(u, x); kd = dot3(u, x) * (1 - q)
        out.append(tuple(x[i] * q + kr[i] * s + u[i] * kd + D.ORIGIN[i] for i in range(3)))
    return tuple(out)


def inside(c, D, n, r, want, box):
    z, y = [b[0] for b in box], [b[1] for b in box]
    t = sum(r.values())
    if want is None: want = max(t, 1e-9)
    else: c.holds('the volume of %s is scattered' % n, abs(t - want) < 1e-5 * want, D.loc, '%g instead of %g' % (t, want))
    off = [k for k, v in r.items() if abs(v) > 1e-6 * want and not (min(z) - 1.01 <= k[1] <= max(z) + 1.01 and min(y) - 1.01 <= k[2] <= max(y) + 1.01)]
    c.holds('the intensity of %s stays at its projection' % n, not off, D.loc, 'pixel %s, projected on %.2f..%.2f, %.2f..%.2f' % (off[:1], min(z), max(z), min(y), max(y)))
    c.holds('no intensity of %s is negative' % n, all(v > -1e-9 * want for v in r.values()), D.loc)


@check('C11')
def c11_macro(c):
    with c.scope('macro'):
        D = macro(c); p = MacroPictures(c, D)
        els = [E1, E0, E2]; a, b = (0, 1, K0, .2, 3.), (0, 0, (1., -.1, .1), .7, .4)
        up = lambda q: (1,) + q[1:]
        for n, x, y in (('first and second', a, up(b)), ('second and first', up(a), b), ('both in the second', up(a), up(b)), ('both in the first', a, b)):
            r = p(els, [x, y]); u, v = p(els, [x]), p(els, [y])
            p.same('every peak is drawn into its own frame only (%s)' % n, {k: u.get(k, 0) + v.get(k, 0) for k in set(u) | set(v)}, r)
            p.same('nothing is drawn into the other frame (%s)' % n, {k: q for k, q in r.items() if k[0] in (x[0], y[0])}, r)
        r0, r1 = p(els, [a]), p(els, [up(a)])
        p.same('a frame does not depend on which one it is', {(1,) + k[1:]: v for k, v in r0.items()}, r1)


@check('C12')
def c12_macro(c):
    with c.scope('macro'):
        D = macro(c); p = MacroPictures(c, D)
        a = p([E1, E0], [(0, 1, K0, .2, 3.)])
        c.holds('a peak is drawn', sum(a.values()) > 0.1, D.loc, 'nothing is drawn')
        for I in (6., 0.03, 1e-9, 1e9, 0.):
            b = p([E1, E0], [(0, 1, K0, .2, I)])
            p.same('intensity proportional to the intensity factor', {k: v * I / 3 for k, v in a.items()}, b, 1e-4)
        p.same('the volume is that of the illuminated part, not the grain volume of the table', a, p([E1, E0], [(0, 1, K0, .2, 3.)], hit_21=lambda q: 5.))
        p.same('other columns of the table do not matter', a, p([E1, E0], [(0, 1, K0, .2, 3.)], **{'hit_%d' % j: (lambda q, j=j: 3.3 + j) for j in range(30) if j not in (0, 6, 13, 14, 15, 28, 29)}))
        big = [grow(E1, 1.), grow(E0, 1.)]
        p.same('the total is the factor times the illuminated volume', {0: sum(a.values())}, {0: 3. * tetra(E0)[1]}, 1e-5)
