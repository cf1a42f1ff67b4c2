"""C19: invalid requests are refused, valid ones are not."""
from ..lib import *
from engine.vals import *
from engine.extern import copy_value
from .formulas import pc_term
from .detect import peaks_dict, hats
from .diffract import structure_factor_model, no_illumination, cone_model
from .storage import Disk, makers
from .templates import KEYS, parameters
from ..lib import expand
import math
PI = math.pi


class Req:
    """one request analysed: the condition under which it is refused"""
    def __init__(self, c, w, f):
        self.c, self.w, self.it = c, w, w.it
        it = w.it
        self.e0 = len(it.events); n0 = len(it.pc)
        self.stopped = False
        try: self.value = f()
        except Stop as s:
            self.stopped = s.kind == 'raise'
            if not self.stopped: raise
        c.use(w)
        self.ev = [x for x in it.events[self.e0:] if x.kind == 'raise' and not str(x.data).startswith('handled')]
        self.odd = [x for x in it.events[self.e0:] if x.kind in ('unbound', 'noattr', 'keyerror', 'shape')]
        self.n0 = n0
        if self.stopped and not self.ev: raise V.Unsupported('stopped without a raise')
        self.again()

    def again(self):
        self.cond = tm.FALSE
        for x in self.ev: self.cond = tm.or_(self.cond, pc_term(x.pc[self.n0:]))
        self.loc = self.ev[0].loc if self.ev else ''

    def unk(self): return any(x.unk for x in tm.walk(self.cond)) or bool(tm.uninterpreted(self.cond)) or (bool(self.odd) and not self.ev)

    def refused(self, name='refused'):
        v = truth(self.cond)
        return self.c.holds(name, v == {True}, self.loc, 'the request is carried out' if not self.ev else 'refused only under a condition', unk=self.unk() or bool(self.odd) and not self.ev)

    def accepted(self, name='accepted'):
        v = truth(self.cond)
        return self.c.holds(name, v == {False}, self.loc, 'refused: %s' % [str(x.data)[:70] for x in self.ev][:2], unk=self.unk())

    def exactly(self, name, want, *others):
        self.c.eq_any(name, self.cond, [E(x).t for x in (want,) + others], where=self.loc, degenerate=True)


def truth(t, n=24, over=None):
    """truth values over real interpretations"""
    out = set()
    for seed in range(n):
        ln = tm.CLane(seed)
        out.add(bool(ln.bv(t, {})))
    return out


def at_number(t, name, values):
    """truth of t with a number in place of an input"""
    from ..lanes import OLane
    return [bool(OLane(3, {name: v}).bv(t, {})) for v in values]


def hull_model(w, used):
    """convex hulls with a given number of corners"""
    def model(it, args, kw):
        p = it.to_td(args[0] if args else kw['points'])
        n = p.dims[0] if isinstance(p.dims[0], int) else None
        k = used if n is None else min(used, n)
        hs = tensor('facet%d' % len(it.events), (Base('facets'), 4))
        o = it.mkO('scipy.spatial.ConvexHull', {'points': args[0] if args else kw['points'], 'vertices': it.newT(const_td(np.arange(k), 'i64', 'numpy')), 'equations': it.newT(hs)})
        return o
    w.it.exts['scipy.spatial.ConvexHull'] = model


@check('C19')
def c19(c):
    # beams
    def beam(w, D, Q, wl=0.3):
        hull_model(w, 8)
        return Req(c, w, lambda: w.new('beam', 'Beam', w.t('bv', 8, 3), D, wl, Q))
    D = [E(atom('xray_dir_%d' % i)) for i in range(3)]; Q = [E(atom('pol_%d' % i)) for i in range(3)]
    with c.scope('beam with any polarization'):
        w = World(); beam(w, w.vec(D), w.vec(Q), w.s('wavelength', pos=True)).refused('a polarization that is not orthogonal to the direction is refused')
    with c.scope('beam with an orthogonal polarization'):
        w = World(); beam(w, w.vec(D), w.vec(vsub(Q, scale(dot(Q, D) / dot(D, D), D))), w.s('wavelength', pos=True)).accepted()
    for nm, d, q, ok in (('along the beam', (1, 0, 0), (1, 0, 0), False), ('slightly off', (1, 0, 0), (0.01, 1, 0), False), ('orthogonal', (1, 0, 0), (0, 1, 0), True), ('orthogonal, not normalised', (2, 0, 0), (0, 0, 5), True), ('off, in a long vector', (1, 0, 0), (10, 1000, 0), False)):
        with c.scope('polarization %s' % nm):
            w = World(); r = beam(w, w.npconst(d), w.npconst(q)); (r.accepted if ok else r.refused)()
    for how in ('new beam', 'set_beam_vertices'):
        for used, ok in ((8, True), (7, False), (4, False)):
            with c.scope('%s with %d of 8 vertices on the hull' % (how, used)):
                w = World(); hull_model(w, 8 if how != 'new beam' else used)
                v = w.t('bv', 8, 3)
                if how == 'new beam': r = Req(c, w, lambda: w.new('beam', 'Beam', v, w.npconst((1, 0, 0)), 0.3, w.npconst((0, 1, 0))))
                else:
                    b = w.new('beam', 'Beam', v, w.npconst((1, 0, 0)), 0.3, w.npconst((0, 1, 0)))
                    hull_model(w, used)
                    v2 = w.t('bw', 8, 3, lib='torch')
                    r = Req(c, w, lambda: w.meth(b, 'set_beam_vertices', v2))
                (r.accepted if ok else r.refused)()
    # motions
    def motion(w, ang, axis): return w.new('motion', 'RigidBodyMotion', axis, ang, w.t('translation', 3), w.t('origin', 3))
    with c.scope('rotation angle'):
        w = World(); a = atom('angle')
        r = Req(c, w, lambda: motion(w, Sym(a, 'float'), w.npconst((0, 0, 1))))
        r.exactly('refused exactly outside (0, pi)', ~((E(a) > 0) & (E(a) < PI)))
    for v, ok in ((-0.5, False), (0, False), (0.0, False), (PI, False), (PI + 0.1, False), (7, False), (-PI / 2, False), (1e-6, True), (1, True), (3.1415, True), (PI / 2, True)):
        with c.scope('rotation angle %s' % v):
            w = World()
            r = Req(c, w, lambda: motion(w, v, w.npconst((0, 0, 1))))
            (r.accepted if ok else r.refused)()
    for ax, ok in (((0, 0, 2), False), ((0, 0, 0.5), False), ((0, 0, 0), False), ((1, 1, 0), False), ((0.6, 0.8, 0), True), ((0, -1, 0), True), ((0, 0, 1.01), False)):
        with c.scope('rotation axis %s' % (ax,)):
            w = World()
            r = Req(c, w, lambda: motion(w, 0.5, w.npconst(ax)))
            (r.accepted if ok else r.refused)()
    with c.scope('rotation axis of any length'):
        w = World()
        r = Req(c, w, lambda: motion(w, 0.5, w.t('axis', 3))); r.refused()
    with c.scope('time of a translation'):
        w = World(); m = w.motion(); a = atom('time')
        r = Req(c, w, lambda: w.meth(m, 'translate', w.t('points', Base('points'), 3, lib='torch'), Sym(a, 'float')))
        r.exactly('refused exactly outside [0, 1]', ~((E(a) >= 0) & (E(a) <= 1)))
    for v, ok in ((-0.01, False), (1.001, False), (2, False), (0, True), (1, True), (0.5, True)):
        with c.scope('translation at time %s' % v):
            w = World(); m = w.motion()
            r = Req(c, w, lambda: w.meth(m, 'translate', w.t('points', Base('points'), 3), v)); (r.accepted if ok else r.refused)()
    # samples
    EL = 'elements'
    shapes = (((3,), False), ((4, 3), False), ((3, 4), False), ((9,), False), ((1, 3, 3), None), (('others', 3, 3), 'len'), ((EL, 9), False), ((EL, 4, 4), False), ((3, 3), True), ((EL, 3, 3), True), ((1, EL, 3, 3), False))
    for what in ('orientation', 'strain'):
        for sh, ok in shapes:
            if ok is None: continue
            for lib in ('numpy', 'torch'):
                with c.scope('%s of shape %s (%s)' % (what, sh, lib)):
                    w = World(); feasible(w); m = w.mesh()
                    dims = tuple(w.elements if s == EL else Base(s) if isinstance(s, str) else s for s in sh)
                    a = w.t('given', *dims, lib=lib); good = w.mat(w.rotmat('U'), (3, 3)); zero = w.npconst(np.zeros((3, 3)))
                    ph = w.phases(1)[0]
                    r = Req(c, w, lambda: w.new('polycrystal', 'Polycrystal', m, a if what == 'orientation' else good, a if what == 'strain' else zero, ph, None))
                    if ok == 'len': r.exactly('refused exactly for another number of elements', ~E(tm.length(dims[0])).eq(tm.length(w.elements)))
                    else: (r.accepted if ok else r.refused)()
    for n, mp, ok in ((1, False, True), (2, False, False), (3, False, False), (2, True, True), (1, True, True)):
        for as_list in (True, False):
            if not as_list and n > 1: continue
            with c.scope('%d phase%s %s phase map%s' % (n, 's' if n > 1 else '', 'with' if mp else 'without', '' if as_list else ', not in a list')):
                w = World(); feasible(w); m = w.mesh(); ph = w.phases(n)
                cells = np.empty((1,), dtype=object); cells[0] = tm.choice('phase_index', n, var(w.elements)) if n > 1 else num(0)
                pm = w.it.newT(TD((w.elements,), [var(w.elements)], cells, 'i64', 'numpy')) if mp else None
                r = Req(c, w, lambda: w.new('polycrystal', 'Polycrystal', m, w.mat(w.rotmat('U'), (3, 3)), w.npconst(np.zeros((3, 3))), w.it.mkL(ph) if as_list else ph[0], pm))
                (r.accepted if ok else r.refused)()
    for mp in (False, True):
        for per in (False, True):
            with c.scope('diffraction of one phase %s phase map, %s orientation' % ('with' if mp else 'without', 'individual' if per else 'common')):
                w = World(); feasible(w); m = w.mesh(); structure_factor_model(w, []); no_illumination(w)
                pm = None
                if mp:
                    cells = np.empty((1,), dtype=object); cells[0] = num(0)
                    pm = w.it.newT(TD((w.elements,), [var(w.elements)], cells, 'i64', 'numpy'))
                U = w.mat(w.rotmat('U', *((var(w.elements),) if per else ())), ((w.elements,) if per else ()) + (3, 3))
                def go():
                    p = w.new('polycrystal', 'Polycrystal', m, U, w.npconst(np.zeros((3, 3))), w.phases(1)[0], pm)
                    return w.meth(p, 'diffract', beams[0], mo)
                beams = [w.beam()]; mo = w.motion()
                r = Req(c, w, go); r.accepted()
                bad = [x for x in w.it.events[r.e0:] if x.kind == 'notensor']
                c.holds('no torch function is given an array', not bad, bad[0].loc if bad else '', '%s of a numpy array' % (bad[0].data if bad else ''))
    for per in (False, True):
        with c.scope('strain %s' % ('per element' if per else 'common')):
            w = World()
            def eig(it, args, kw):
                t = it.to_td(args[0]); pre = t.cells.shape[:-2]
                cells = np.empty(pre + (3,), dtype=object)
                for ix in np.ndindex(*pre):
                    for k in range(3): cells[ix + (k,)] = tm.atom('eig%d' % k, *[a for a in t.axes if a is not None])
                eigs.append(t)
                return it.newT(TD(tuple(t.dims[:-2]) + (3,), tuple(t.axes[:-2]) + (None,), cells, 'f64', 'torch'))
            eigs = []
            w.it.exts['torch.linalg.eigvalsh'] = eig
            r = Req(c, w, lambda: w.polycrystal(per, 1))
            if not eigs: c.undecided('feasibility of the strain', 'no eigenvalues are computed')
            else:
                vs = set()
                for seed in range(40):
                    for neg in (False, True):
                        v = Eig(seed, neg).bv(r.cond, {})
                        vs.add((neg, bool(v)))
                c.holds('refused when the deformation turns a direction inside out', (True, False) not in vs, r.loc, 'not refused', unk=r.unk())
                c.holds('accepted when it does not', (False, True) not in vs, r.loc, 'refused', unk=r.unk())
    # detectors
    for kw, ok in (({}, False), (dict(n_pixels=(4, 5), pixel_size=(0.1, 0.2)), False), (dict(n_pixels=6, pixel_size=0.1), False), (dict(n_pixels=(4, 5)), True), (dict(n_pixels=6), True), (dict(pixel_size=(0.1, 0.2)), True), (dict(pixel_size=0.1), True)):
        with c.scope('detector with %s' % (' and '.join(sorted(kw)) or 'no pixels')):
            w = World()
            ds = [w.t('corner%d' % i, 3) for i in range(3)]
            r = Req(c, w, lambda: w.new('detector', 'Detector', *ds, **kw))
            (r.accepted if ok else r.refused)()
    # rendering
    for method, ok in (('gauss', False), ('airy', False), ('', False), ('macro ', False), (None, False), ('micro', True), ('nano', True), ('macro', True), ('auto', True)):
        for n in (1, 2):
            with c.scope('method %r, %d frames' % (method, n)):
                w = World(); d = w.detector(gaussian_sigma=w.s('gsig', pos=True)); no_drawing(w)
                p = peaks_dict(w, w.beam(), w.motion(), w.mesh())
                r = Req(c, w, lambda: w.meth(d, 'render', p, n, method=method, verbose=False))
                (r.accepted if ok else r.refused)()
    for dev, ok in (('opencl', False), ('', False), ('tpu', False), ('cud', False), ('cpu', True), ('auto', True), ('gpu', True), ('cuda', True)):
        with c.scope('device %r' % dev):
            w = World()
            r = Req(c, w, lambda: w.run(w.func('cuda', 'configure_device'), dev, verbose=False))
            (r.accepted if ok else r.refused)()
    # files
    for cls, mod, e, objs in makers():
        if cls == 'TetraMesh': continue
        for bad in ('file.dat', 'some%s/file' % e):
            with c.scope('%s loaded from %s' % (cls, bad)):
                w = World(); disk = Disk(w); o = objs[0][1](w); disk.files[bad] = copy_value(w.it, o)
                Req(c, w, lambda: w.run(w.it.getattr(w.cls(mod, cls), 'load'), bad)).refused()
    # templates
    for k in KEYS:
        with c.scope('template without ' + k):
            w = World(); d = parameters(w, 4, 5); d.pop(k)
            Req(c, w, lambda: w.run(w.func('templates', 's3dxrd'), w.it.mkD(d))).refused()
    # Bragg angles of a detector
    for lo, cone, ok in ((0.1, 0.3, True), (0, 0.3, True), (-0.1, 0.3, False), (0.3, 0.3, False), (0.4, 0.3, False)):
        for mx in (PI / 2, 0.05, 1.0):
            with c.scope('lower Bragg angle %s, detector sees up to %s, upper %.2g' % (lo, cone, mx)):
                w = World(); no_illumination(w); structure_factor_model(w, [])
                w.it.exts['xrd_simulator.detector.Detector._get_wrapping_cone'] = lambda it, a, k: it.newT(V.scalar(tm.num(cone), 'f64', 'torch'))
                pc = w.polycrystal(False, 1); d = w.detector(); b = w.beam(); m = w.motion()
                r = Req(c, w, lambda: w.meth(pc, 'diffract', b, m, lo, mx, d, verbose=False))
                (r.accepted if ok else r.refused)()


def feasible(w):
    """deformations that turn nothing inside out"""
    def model(it, args, kw):
        t = it.to_td(args[0])
        cells = np.empty(t.cells.shape[:-1], dtype=object); cells[...] = tm.ONE
        return it.newT(TD(tuple(t.dims[:-1]), tuple(t.axes[:-1]), cells, 'f64', 'torch'))
    w.it.exts['torch.linalg.eigvalsh'] = model


def no_drawing(w):
    for n in ('_render_gauss_peaks', '_render_airy_peaks', '_render_projected_volumes', '_conv2d_gaussian_kernel'):
        w.it.exts['xrd_simulator.detector.Detector.' + n] = lambda it, a, k: it.newT(tensor('drawn', (Base('rows'), Base('cols')), lib='torch'))


class Eig(tm.CLane):
    """eigenvalues that are all positive, or one of them negative"""
    def __init__(self, seed, neg):
        tm.CLane.__init__(self, seed); self.neg = neg; self.which = 'eig%d' % (seed % 3)
    def e_atom(self, t, env):
        v = tm.CLane.e_atom(self, t, env)
        if str(t.args[0]).startswith('eig'):
            x = abs(v[0].real) + 0.1
            return (complex(-x if self.neg and t.args[0] == self.which else x),)
        return v

