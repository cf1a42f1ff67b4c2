"""C01 (table columns), C02 (Laue roots), C03 (U B hkl), C13 (illumination), C21 (reflection lists)."""
from ..lib import *
import math

NAMES = ['grain_index', 'phase_number', 'h', 'k', 'l', 'structure_factors', 'diffraction_times', 'G0_x', 'G0_y', 'G0_z',
         'Gx', 'Gy', 'Gz', 'K_out_x', 'K_out_y', 'K_out_z', 'Source_x', 'Source_y', 'Source_z', 'lorentz_factors',
         'polarization_factors', 'volumes', '2theta', 'scherrer_fwhm', 'peak_index']
DETNAMES = ['zd', 'yd', 'incident_angle', 'frame', 'intensity_factors']
pi = math.pi


def bind(it, q, args, kw):
    """arguments of repository function q by parameter name"""
    mod, name = q.rsplit('.', 1)
    f = it.get_global(mod, name)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    d = dict(zip(names, args)); d.update(kw)
    return d


def structure_factor_model(w, log):
    """compute_structure_factors_batch as an uninterpreted function of (h, k, l) and the phase's
    cell, space group and file (its formula is C22's subject)"""
    q = 'xrd_simulator.structure_factors.compute_structure_factors_batch'
    def model(it, args, kw):
        d = bind(it, q, args, kw)
        h = it.to_td(d['miller_indices'])
        key = [it.as_term(d.get('unit_cell')), it.as_term(d.get('sgname')), it.as_term(d.get('path_to_cif_file'))]
        log.append((h, d))
        rows = [h.cells[0, i] for i in range(3)]
        c = np.empty((1, 2), dtype=object)
        for j in range(2): c[0, j] = tm.uf('SF%d' % j, *rows, *key)
        return it.newT(TD((h.dims[0], 2), (h.axes[0], None), c, 'f64', 'numpy'))
    w.it.exts[q] = model
    def sf2(h, k, l, phase):
        key = [w.it.as_term(w.attr(phase, 'unit_cell')), w.it.as_term(w.attr(phase, 'sgname')), w.it.as_term(w.attr(phase, 'path_to_cif_file'))]
        r = [E(tm.uf('SF%d' % j, E(h).t, E(k).t, E(l).t, *key)) for j in range(2)]
        return r[0] ** 2 + r[1] ** 2
    return sf2


class Scene:
    """one diffraction analysed"""
    def __init__(self, c, per_element=True, nphases=2, cif=True, detector=False, transformed=False, again=False, **kw):
        w = self.w = World(); it = self.it = w.it
        self.log = []
        self.sf2 = structure_factor_model(w, self.log)
        self.nph = nphases; self.cif = cif
        self.pc = w.polycrystal(per_element, nphases, cif)
        self.beam = w.beam()
        if transformed:
            self.m0 = w.motion('0'); self.axis0 = w.axis
            w.meth(self.pc, 'transform', self.m0, w.s('transform_time'))
        self.mo = w.motion(); self.axis = w.axis
        args = dict(kw)
        if detector:
            self.det = w.detector(); args['detector'] = self.det
        if again:
            b2 = w.beam('B'); m2 = w.motion('B'); self.axis = w.axis if False else self.axis
            w.meth(self.pc, 'diffract', b2, m2, w.s('earlier_min_bragg'), w.s('earlier_max_bragg'))
        self.ne = len(it.events)
        r = it.simp(w.meth(self.pc, 'diffract', self.beam, self.mo, **args))
        c.use(w)
        if not isinstance(r, Dct): raise V.Unsupported('diffract result %r' % (r,))
        self.D = it.heap[r.oid]; self.r = r
        self.peaks = it.td(it.simp(self.D['peaks']))
        self.names = list(it.iter_list(it.simp(self.D['columns'])))
        self.n0 = {n: i for i, n in enumerate(self.names)}

    def col(self, name):
        return E(self.peaks.cells[0, self.n0[name]])

    def cols(self, *names): return [self.col(n) for n in names]

    # physical inputs
    def k(self):
        D = [E(atom('xray_dir_%d' % i)) for i in range(3)]
        return scale(2 * pi / E(atom('wavelength', pos=True)), unit(D))

    def motion_pars(self):
        return (self.axis, E(atom('rot_angle', pos=True)), [E(atom('origin_%d' % i)) for i in range(3)], [E(atom('translation_%d' % i)) for i in range(3)])


def element_volume(e):
    X = [[E(atom('coord_%d' % i, tm.iatom('enod_%d' % n, E(e).t))) for i in range(3)] for n in range(4)]
    a, b, d = [vsub(X[i], X[0]) for i in (1, 2, 3)]
    return absv(dot(a, cross(b, d))) / 6


def crystal_B(U, eps, B0):
    """B of a strained crystal: F^T F = 2 U^T eps U + 1, B = F^-1 B0"""
    C = mm(mm(tr(U), eps), U)
    M = [[2 * C[i][j] + (1 if i == j else 0) for j in range(3)] for i in range(3)]
    L00 = sqrt(M[0][0]); L10 = M[1][0] / L00; L20 = M[2][0] / L00
    L11 = sqrt(M[1][1] - L10 ** 2); L21 = (M[2][1] - L20 * L10) / L11
    L22 = sqrt(M[2][2] - L20 ** 2 - L21 ** 2)
    F = [[L00, L10, L20], [E(0), L11, L21], [E(0), E(0), L22]]
    return mm(inv3(F), B0)


def B0_of(w, phase_i):
    cell = [atom('cell%d_%d' % (phase_i, j), pos=True) for j in range(6)]
    return [[E(tm.uf('B0_%d%d' % (i, j), *cell)) for j in range(3)] for i in range(3)]


def form_b_model(w):
    """xfab.tools.form_b_mat as an uninterpreted matrix of the six cell parameters"""
    def model(it, args, kw):
        uc = it.simp(args[0] if args else kw['unit_cell'])
        cell = [it.as_term(x) for x in it.iter_list(uc)] if not isinstance(uc, T) else list(it.td(uc).cells.flat)
        c = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3): c[i, j] = tm.uf('B0_%d%d' % (i, j), *cell)
        return it.newT(TD((3, 3), (None, None), c, 'f64', 'numpy'))
    w.it.exts['xfab.tools.form_b_mat'] = model


def lorentz(k, kout, n):
    k2 = dot(k, k)
    cth = dot(k, kout) / k2
    ko = vsub(kout, scale(cth, k))
    theta = arccos(cth) / 2
    eta = arccos(dot(n, ko) / norm(ko))
    deg = 180 / pi
    inf = (absv(eta) * deg < 0.5) | (absv(eta) * deg > 179.5) | (theta * deg < 0.5)
    return ite(inf, E(tm.INF), 1 / (sin(2 * theta) * absv(sin(eta))))


def scherrer(vol, tth, wl):
    return 0.9 * E(wl) / (2 * (3 * E(vol) / (4 * pi)) ** (1 / 3) * 1e4 * cos(E(tth) / 2))


def table_columns(c, s, tag, centre=None):
    """every column holds the quantity its name states, given the row's own element, hkl and time"""
    w = s.w
    with c.scope(tag):
        c.holds('column names', s.names == NAMES, loc_of(s.peaks), 'columns %s' % s.names)
        c.holds('one name per column', len(s.peaks.dims) == 2 and s.peaks.dims[1] == len(s.names), loc_of(s.peaks), 'table %s, %d names' % (s.peaks.dims, len(s.names)), unk=any(x.unk for x in s.peaks.cells.flat))
        t = s.col('diffraction_times'); e = s.col('grain_index')
        h = s.cols('h', 'k', 'l'); G0 = s.cols('G0_x', 'G0_y', 'G0_z')
        axis, ang, org, trans = s.motion_pars()
        k = s.k()
        R = rotation(axis, ang * t)
        G = mv(R, G0)
        for i in range(3): c.eq('G = R(t) G0 [%s]' % 'xyz'[i], s.cols('Gx', 'Gy', 'Gz')[i], G[i])
        ko = vadd(k, G)
        for i in range(3): c.eq('K_out = k + G [%s]' % 'xyz'[i], s.cols('K_out_x', 'K_out_y', 'K_out_z')[i], ko[i])
        X = centre(e) if centre else [E(atom('sphere_center_%d' % i, e.t)) for i in range(3)]
        S = rigid(X, axis, ang, org, trans, t)
        for i in range(3): c.eq('source is the moved element centre [%s]' % 'xyz'[i], s.cols('Source_x', 'Source_y', 'Source_z')[i], S[i])
        c.eq('lorentz_factors', s.col('lorentz_factors'), lorentz(k, ko, axis), degenerate=True)
        P = [E(x) for x in unit(w.in_beam[2])]
        c.eq('polarization_factors', s.col('polarization_factors'), 1 - dot(unit(ko), P) ** 2)
        c.eq('volumes', s.col('volumes'), element_volume(e))
        tth = arccos(dot(unit(k), unit(ko)))
        c.eq('2theta', s.col('2theta'), tth)
        c.eq('scherrer_fwhm', s.col('scherrer_fwhm'), scherrer(element_volume(e), tth, atom('wavelength', pos=True)))
        row = s.peaks.axes[0]
        c.eq('peak_index is the running row number', s.col('peak_index'), E(row))
        ph = s.col('phase_number')
        for i in range(s.nph):
            this = ph.eq(i)
            c.eq('structure_factors of the row\'s own hkl and phase %d' % i, s.col('structure_factors'), s.sf2(*h, w.phase_objs[i]) if s.cif else E(1), guard=this)
            if s.nph > 1: c.each_row('phase_number is the phase of the element (%d)' % i, row, E(tm.choice('phase_index', s.nph, e.t)).eq(i), tm.TRUE, guard=this)
        if s.nph > 1: c.true('phase_number is one of the phases', ph.eq(0) | ph.eq(1))
        else: c.eq('phase_number is 0', ph, E(0))


@check('C01')
def c01(c):
    s = Scene(c); table_columns(c, s, 'diffract, two phases, per-element state')
    with c.scope('diffract result'):
        D, w = s.D, s.w
        for i, x in enumerate(s.k()): c.eq('incident_vector is the beam wave vector [%d]' % i, vec(s.it.td(D['incident_vector']))[i], x)
        c.eq('wavelength', D['wavelength'].t if isinstance(D['wavelength'], Sym) else s.it.as_term(D['wavelength']), atom('wavelength', pos=True))
        for i, x in enumerate(s.axis): c.eq('rotation_axis [%d]' % i, vec(s.it.td(D['rotation_axis']))[i], x)
    with c.scope('variants'):
        table_columns(c, Scene(c, per_element=False, nphases=1, cif=False), 'one phase, common orientation and strain, no structure file')
    with c.scope('variants'):
        table_columns(c, Scene(c, detector=True), 'Bragg range from detector')


@check('C03')
def c03(c):
    for tag, kw in (('per-element state, two phases', {}), ('common state, one phase', dict(per_element=False, nphases=1)),
                    ('no structure file', dict(cif=False)), ('five phases', dict(cif=False, nphases=5))):
        with c.scope(tag):
            w0 = World
            s = SceneB(c, **kw)
            e = s.col('grain_index'); h = s.cols('h', 'k', 'l'); ph = s.col('phase_number')
            at = {var(s.w.elements): e} if kw.get('per_element', True) else {}
            U = [[x.at(at) for x in r] for r in s.w.U]; ep = [[x.at(at) for x in r] for r in s.w.eps]
            for i in range(s.nph):
                # the phase whose cell enters is the phase the map gives for the row's own element
                g = E(tm.choice('phase_index', s.nph, e.t)).eq(i) if s.nph > 1 else None
                G = mv(U, mv(crystal_B(U, ep, B0_of(s.w, i)), h))
                for j in range(3): c.eq('G0 = U B hkl, element of phase %d [%s]' % (i, 'xyz'[j]), s.cols('G0_x', 'G0_y', 'G0_z')[j], G[j], guard=g)


class SceneB(Scene):
    def __init__(self, c, **kw):
        old = World.__init__
        def init(self_, *a, **k):
            old(self_, *a, **k); form_b_model(self_)
        World.__init__ = init
        try: Scene.__init__(self, c, **kw)
        finally: World.__init__ = old


# ------------------------------------------------------------------ exact row sets
def phase_rows(s, i):
    """membership and attributes of (element, reflection) pairs of phase i"""
    w = s.w
    mi = s.it.td(s.it.simp(w.attr(w.phase_objs[i], 'miller_indices')))
    e = fresh(w.elements); r = fresh(mi.dims[0])
    h = [E(mi.cells[0, j]).at({mi.axes[0]: r}) for j in range(3)]
    m = E(tm.TRUE)
    if s.nph > 1: m = m & E(tm.choice('phase_index', s.nph, e)).eq(i)
    sf = s.sf2(*h, w.phase_objs[i]) if s.cif else E(1)
    if s.cif: m = m & (sf > 1e-6)
    return e, r, h, sf, m


def laue_roots(k, n, G, ang):
    """solutions t of |k + R(ang t) G| = |k|: [(t, condition)]"""
    A = dot(k, G) - dot(n, k) * dot(n, G)
    B = dot(k, cross(n, G))
    D = dot(n, k) * dot(n, G) + dot(G, G) / 2
    # with u = tan(phi/2):  (D-A) u^2 + 2 B u + (D+A) = 0
    den = D - A
    a, b = B / den, (D + A) / den
    disc = a ** 2 - b
    lin = den.eq(0)              # then the equation is linear: 2 B u + (D + A) = 0
    out = []
    for sg in (1, -1):
        t = 2 * arctan(-a + sg * sqrt(disc)) / ang
        if sg == 1:
            t = ite(lin, 2 * arctan(-(D + A) / (2 * B)) / ang, t)
            inside = (t >= 0) & (t <= 1)
            ok = lin | ~(disc < 0)
            out.append((t, [ok & inside, inside, ok & inside, inside]))
        else:
            inside = (t >= 0) & (t <= 1)
            out.append((t, [~lin & ~(disc < 0) & inside, ~lin & inside, ~(disc < 0) & inside, inside]))
    return out


def illuminated(w, beam, X):
    """strictly inside every half-space of the beam"""
    hs = w.it.td(w.it.simp(w.attr(beam, 'halfspaces')))
    a = hs.axes[0]
    ins = E(0)
    body = dot([E(hs.cells[0, j]) for j in range(3)], X) + E(hs.cells[0, 3]) < 0
    return E(tm.red('all', a.args[0], a, body.t))


def no_illumination(w):
    """every point is inside the beam (isolates the stage before)"""
    def model(it, args, kw):
        p = it.to_td(args[1] if len(args) > 1 else kw['points'])
        if p.ndim == 1: return it.newT(V.scalar(tm.TRUE, 'b', 'torch'))
        return it.newT(TD((p.dims[1],), (p.axes[1],), np.array([tm.TRUE], dtype=object), 'b', 'torch'))
    w.it.exts['xrd_simulator.beam.Beam._contains'] = model


class SceneF(Scene):
    """hooks: list of functions applied to the new world"""
    def __init__(self, c, hooks=(), **kw):
        old = World.__init__
        def init(self_, *a, **k):
            old(self_, *a, **k)
            for h in hooks: h(self_)
        World.__init__ = init
        try: Scene.__init__(self, c, **kw)
        finally: World.__init__ = old


def table_branches(s, names):
    row = s.peaks.axes[0]
    out = []
    for p, m, base in expand(row.args[0]):
        out.append((m, [E(tm.let({row: p}, s.col(n).t)) for n in names], base))
    return out


ROWKEY = ['grain_index', 'phase_number', 'h', 'k', 'l', 'structure_factors', 'diffraction_times', 'G0_x', 'G0_y', 'G0_z']


@check('C02')
def c02(c):
    for tag, kw in (('two phases', {}), ('one phase', dict(nphases=1, per_element=False)), ('no structure file', dict(cif=False)), ('five phases', dict(nphases=5, cif=False))):
        with c.scope(tag):
            s = SceneF(c, hooks=(form_b_model, no_illumination), **kw)
            axis, ang, org, trans = s.motion_pars(); k = s.k()
            want = []
            for i in range(s.nph):
                e, r, h, sf, m = phase_rows(s, i)
                at = {var(s.w.elements): E(e)} if kw.get('per_element', True) else {}
                U = [[x.at(at) for x in q] for q in s.w.U]; ep = [[x.at(at) for x in q] for q in s.w.eps]
                G0 = mv(U, mv(crystal_B(U, ep, B0_of(s.w, i)), h))
                for t, cond in laue_roots(k, axis, G0, ang):
                    want.append([((m & cd).t, [E(e), E(i)] + h + [sf, t] + G0, (e, r)) for cd in cond])
            got = table_branches(s, ROWKEY)
            compare_rows(c, 'reported rows are the roots in [0,1]', got, [x[0] for x in want], 'xrd_simulator.polycrystal:_compute_peaks', *[[x[q] for x in want] for q in (1, 2, 3)])


@check('C13')
def c13(c):
    for tag, kw in (('two phases', {}), ('one phase, no structure file', dict(nphases=1, cif=False))):
        with c.scope('diffract, ' + tag):
            s = SceneF(c, hooks=(form_b_model,), **kw)
            s0 = SceneF(c, hooks=(form_b_model, no_illumination), **kw)
            want = []
            row0 = s0.peaks.axes[0]
            axis, ang, org, trans = s.motion_pars()
            e = s0.col('grain_index')
            X = [E(atom('sphere_center_%d' % i, e.t)) for i in range(3)]
            S = rigid(X, axis, ang, org, trans, s0.col('diffraction_times'))
            inside = illuminated(s.w, s.beam, S)
            for p, m, base in expand(row0.args[0]):
                want.append((tm.and_(m, tm.let({row0: p}, inside.t)), [E(tm.let({row0: p}, s0.col(n).t)) for n in NAMES[:24] if n not in ('lorentz_factors',)], base))
            got = table_branches(s, [n for n in NAMES[:24] if n not in ('lorentz_factors',)])
            compare_rows(c, 'rows kept are those whose source is inside the beam', got, want, 'xrd_simulator.polycrystal:diffract')


@check('C21')
def c21(c):
    for tag, kw in (('first call', {}), ('second call with other wavelength and bounds', dict(again=True)), ('no structure file', dict(cif=False)), ('bounds from detector', dict(detector=True))):
        with c.scope(tag):
            lo, hi = 'bragg_lo', 'bragg_hi'
            kk = dict(kw)
            s = SceneG(c, **kk)
            it = s.it
            gen = [e for e in it.events[s.ne:] if e.kind == 'genhkl']
            before = [e for e in it.events[:s.ne] if e.kind == 'genhkl']
            c.holds('one reflection list per phase', len(gen) == s.nph, (gen or before)[0].loc if gen or before else '', '%d lists for %d phases' % (len(gen), s.nph), unk=not gen and not before)
            names = {x.args[0] for n in 'hkl' for x in tm.walk(s.col(n).t) if x.op == 'atom'}
            for need in ('bragg_lo', 'wavelength') + (() if kw.get('detector') else ('bragg_hi',)):
                c.holds('reflections in the table follow the current %s' % need, need in names, src(s.col('h').t), 'h k l depend on %s' % sorted(n for n in names if not n.startswith('cell'))[:8], unk=s.col('h').t.unk)
            wl = E(atom('wavelength', pos=True))
            if kw.get('detector'): mx = None
            else: mx = E(atom('bragg_hi', pos=True))
            mn = E(atom('bragg_lo', pos=True))
            for i, g in enumerate(gen[:s.nph]):
                d = g.data
                a = E(it.as_term(d['sintlmin'])) if not isinstance(d['sintlmin'], T) else E(it.td(d['sintlmin']).cells.flat[0])
                b = E(it.as_term(d['sintlmax'])) if not isinstance(d['sintlmax'], T) else E(it.td(d['sintlmax']).cells.flat[0])
                c.eq('phase %d lower bound is sin(min)/wavelength' % i, a, sin(mn) / wl, where=g.loc)
                if mx is not None: c.eq('phase %d upper bound is sin(max)/wavelength' % i, b, sin(mx) / wl, where=g.loc)
                c.holds('phase %d own space group' % i, d['sgname'] == 'SG%d' % i, g.loc, d['sgname'], unk=not isinstance(d['sgname'], str))
                uc = [it.as_term(x) for x in it.iter_list(it.simp(d['unit_cell']))]
                for j in range(6): c.eq('phase %d own cell [%d]' % (i, j), uc[j], atom('cell%d_%d' % (i, j), pos=True), where=g.loc)
            # rows refer to the lists of this call
            n = s.nph
            spaces = {it.td(it.simp(s.w.attr(p, 'miller_indices'))).dims[0] for p in s.w.phase_objs}
            last = {id(e) for e in gen}
            for p, m, base in expand(s.peaks.axes[0].args[0]):
                for v in base:
                    if v.args[0].kind == 'opaque':
                        c.holds('rows come from the reflection list of this call', v.args[0] in spaces, gen[-1].loc if gen else '', 'stale list %s' % v.args[0])
            # filtering and factors: same row multiset as (element, reflection) pairs with non-vanishing factor
            want = []
            axis, ang, org, trans = s.motion_pars(); k = s.k()
            for i in range(s.nph):
                e, r, h, sf, m = phase_rows(s, i)
                at = {var(s.w.elements): E(e)}
                U = [[x.at(at) for x in q] for q in s.w.U]; ep = [[x.at(at) for x in q] for q in s.w.eps]
                G0 = mv(U, mv(crystal_B(U, ep, B0_of(s.w, i)), h))
                for t, cond in laue_roots(k, axis, G0, ang):
                    want.append([((m & cd).t, [E(i)] + h + [sf], (e, r)) for cd in cond])
            got = table_branches(s, ['phase_number', 'h', 'k', 'l', 'structure_factors'])
            compare_rows(c, 'non-vanishing reflections keep their own factor', got, [x[0] for x in want], 'xrd_simulator.polycrystal:_compute_peaks', *[[x[q] for x in want] for q in (1, 2, 3)])


@check('C21')
def c21_again(c):
    """a second diffraction that differs from the first in one of wavelength, lower and upper bound"""
    first = (0.5, 0.1, 0.3)
    for tag, second in (('another wavelength', (0.7, 0.1, 0.3)), ('another lower bound', (0.5, 0.2, 0.3)), ('another upper bound', (0.5, 0.1, 0.4)), ('wider bounds', (0.5, 0.05, 0.45)),
                        ('another beam and a lower bound so that min sin(theta)/wavelength is as before', (0.25, math.asin(math.sin(0.1) / 2), 0.3))):
        for cif in (True, False):
            with c.scope('second call with %s%s' % (tag, '' if cif else ', no structure file')):
                w = World(); it = w.it; form_b_model(w); no_illumination(w); structure_factor_model(w, [])
                pc = w.polycrystal(True, 2, cif)
                m = w.motion()
                b1 = w.beam('', first[0]); b2 = w.beam('B', second[0])
                w.meth(pc, 'diffract', b1, m, first[1], first[2], verbose=False)
                old = [it.simp(w.attr(p, 'miller_indices')) for p in w.phase_objs]
                n0 = len(it.events)
                r = it.simp(w.meth(pc, 'diffract', b2, m, second[1], second[2], verbose=False)); c.use(w)
                gen = [e for e in it.events[n0:] if e.kind == 'genhkl']
                for i, p in enumerate(w.phase_objs):
                    v = it.simp(w.attr(p, 'miller_indices'))
                    g = [e for e in gen if e.data.get('sgname') == 'SG%d' % i]
                    same = isinstance(v, T) and isinstance(old[i], T) and it.td(v).dims[0] is it.td(old[i]).dims[0]
                    c.holds('phase %d: the reflection list is generated again' % i, bool(g) and not same, gen[0].loc if gen else 'xrd_simulator.phase:_setup_diffracting_planes', 'the list of the first call is kept', unk=not g and not same)
                    for e in g[-1:]:
                        for key, ang in (('sintlmin', second[1]), ('sintlmax', second[2])):
                            d = e.data[key]; t = E(it.td(d).cells.flat[0]) if isinstance(d, T) else E(it.as_term(d))
                            c.eq('phase %d: %s of this call' % (i, key), t, E(math.sin(ang) / second[0]), where=e.loc)


@check('C21')
def c21_detectors(c):
    """limits derived from a detector are those of the detector, beam and sample of this call: as for a sample that was never diffracted before"""
    for tag, first, moved, second in (('another detector', ('A', ''), False, ('B', '')), ('another beam', ('A', ''), False, ('A', 'B')), ('the sample moved', ('A', ''), True, ('A', '')),
                                      ('another detector, given bounds first', None, False, ('B', '')), ('the same detector again', ('A', ''), False, ('A', ''))):
        with c.scope('limits from a detector, second call with %s' % tag):
            out = []
            for history in (True, False):
                w = World(); it = w.it; form_b_model(w); no_illumination(w); structure_factor_model(w, [])
                it.exts['xrd_simulator.detector.Detector._get_wrapping_cone'] = cone_of(w)
                pc = w.polycrystal(True, 2, False); m = w.motion()
                dets = {k: w.detector() for k in 'AB'}; w.cone_of = {it.simp(dets[k]).oid: k for k in dets}
                beams = {'': w.beam(''), 'B': w.beam('B')}
                if history:
                    if first is None: w.meth(pc, 'diffract', beams[''], m, 0.1, 0.3, verbose=False)
                    else: w.meth(pc, 'diffract', beams[first[1]], m, detector=dets[first[0]], verbose=False)
                if moved: w.meth(pc, 'transform', m, w.s('later'))
                n0 = len(it.events)
                w.meth(pc, 'diffract', beams[second[1]], m, detector=dets[second[0]], verbose=False); c.use(w)
                out.append([e for e in it.events[n0:] if e.kind == 'genhkl']); out.append(it)
            (g1, i1, g2, i2) = out
            if not c.holds('one reflection list per phase', len(g1) == len(g2) == 2, g1[0].loc if g1 else '', '%d lists' % len(g1), unk=not g1): continue
            for j, (a, b) in enumerate(zip(g1, g2)):
                for key in ('sintlmin', 'sintlmax'):
                    x, y = [E(i.td(d).cells.flat[0]) if isinstance(d, T) else E(i.as_term(d)) for i, d in ((i1, a.data[key]), (i2, b.data[key]))]
                    c.eq('phase %d: %s of this call' % (j, key), x, y, where=a.loc)


def cone_of(w):
    """the cone is some function of the corners of the detector, the wave vector and the source point"""
    def model(it, a, k):
        d = dict(zip(('self', 'k', 'source_point'), a)) | k
        self = it.simp(d['self'])
        xs = [E(t) for v in (d['k'], d['source_point']) for t in it.td(it.simp(v)).flat()]
        return it.newT(V.scalar(tm.uf('cone', E(float(ord(w.cone_of[self.oid]))).t, *[x.t for x in xs]), 'f64', 'torch'))
    return model


def cone_model(w):
    w.it.exts['xrd_simulator.detector.Detector._get_wrapping_cone'] = lambda it, a, k: it.newT(V.scalar(atom('cone', pos=True), 'f64', 'torch'))


class SceneG(SceneF):
    def __init__(self, c, **kw):
        kw = dict(kw)
        kw.setdefault('min_bragg_angle', Sym(atom('bragg_lo', pos=True), 'float'))
        kw.setdefault('max_bragg_angle', Sym(atom('bragg_hi', pos=True), 'float'))
        SceneF.__init__(self, c, hooks=(form_b_model, no_illumination, cone_model), **kw)
