"""C10 (renderer selection), and the deposits of the renderers: C11, C12, C15, C28."""
from ..lib import *
from engine.vals import *
from .formulas import shaped, pc_term
from .diffract import NAMES
from .detect import *
from .detect import DetScene

POINT = ('micro', 'nano')
NAMED = ('macro', 'micro', 'nano')


def gsig(): return Sym(atom('gsig', pos=True), 'float')


def scene(c, **kw):
    kw.setdefault('gaussian_sigma', gsig())
    return DetScene(c, **kw)


_rn = {}; _dep = {}
def renderers(c):
    """qualified name of the function each named method hands the peaks to: the outermost one only that method enters"""
    if not _rn:
        ent = {}
        for m in NAMED:
            d = scene(c)
            d.w.meth(d.det, 'render', d.pd, 2, method=m); c.use(d.w)
            ent[m] = [e.data[0] for e in d.events('enter')]
            _dep[m] = {e.loc for e in d.events('deposit')}
        for m in NAMED:
            o = set().union(*(ent[x] for x in NAMED if x != m))
            _rn[m] = next((q for q in ent[m] if q not in o), None)
    return _rn


class Called:
    def __init__(self, d, m, args, kw):
        it = d.it; self.m = m; self.pc = tuple(it.pc[len(d.pc0):]); self.loc = it.loc
        vs = [it.simp(x) for x in list(args) + list(kw.values())]
        tabs = [it.td(x) for x in vs if isinstance(x, T)]
        self.tables = [t for t in tabs if t.ndim == 2 and isinstance(t.dims[1], int) and t.dims[1] >= 25]
        self.values = vs


def spy(c, d):
    """replace the three renderers by models that record what they are given"""
    d.called = []
    dims = None
    def model(m):
        def f(it, args, kw):
            px = it.td(it.simp(d.w.attr(d.det, 'pixel_coordinates')))
            d.called.append(Called(d, m, args, kw))
            return it.newT(tensor('frames_of_' + m, (d.F,) + tuple(px.dims[:2]), lib='torch'))
        return f
    for m, q in renderers(c).items():
        if q: d.it.exts[q] = model(m)


def rows(d, td, extra=None):
    """[(membership, cells, base)] of a peak table"""
    ax = td.axes[0]
    if ax is None: raise V.Unsupported('table without symbolic rows')
    out = []
    for x, m, b in expand(ax.args[0]):
        cells = [E(tm.let({ax: x}, td.cells[0, i])) for i in list(range(25)) + [25, 26, 28, 29]]
        if extra is not None: m = tm.and_(m, tm.let({ax: x}, extra(lambda i: E(td.cells[0, i])).t))
        out.append((m, cells, b))
    return out


def population(t):
    """the predicate only asks whether a group of peaks is empty"""
    return any(x.op in ('bred', 'len', 'red') for x in tm.walk(t))


@check('C10')
def c10(c):
    rn = renderers(c)
    for m in NAMED: c.holds('%s has a renderer of its own' % m, rn[m] is not None, unk=True)
    d = scene(c); d.w.meth(d.det, 'render', d.pd, 2, method='auto'); c.use(d.w)
    for m in NAMED:
        o = set().union(*(_dep[x] for x in NAMED if x != m))
        lost = {e.loc for e in d.events('deposit')} - set().union(*_dep.values())
        c.holds('%s draws with code of its own' % m, bool(_dep[m] - o) or not lost, min(_dep[m], default=''), 'draws only where another method draws, and no method draws at %s' % min(lost, default=''))
    vol = lambda t: t(21)
    ML, mL = E(atom('macro_limit', pos=True)), E(atom('micro_limit', pos=True))
    for m in NAMED:
        for F in (0, 3, 7201) + ((1, 5, -2) if c.thorough else ()):
            with c.scope('method %s, %d frames' % (m, F)):
                d = scene(c); d.F = max(F, 1); spy(c, d); it = d.it
                r = it.simp(d.w.meth(d.det, 'render', d.pd, F, method=m, macro_grain_limit=Sym(ML.t, 'float'), micro_grain_limit=Sym(mL.t, 'float'))); c.use(d.w)
                fr, out = list(it.iter_list(r)); d.take(it.simp(out))
                c.holds('only its renderer draws', {k.m for k in d.called} == {m} and len(d.called) == 1, d.called[0].loc if d.called else '', 'called %s' % [k.m for k in d.called], unk=rn[m] is None or not d.called)
                if not d.called: continue
                hand(c, d, d.called[0], None)
                want = tensor('frames_of_' + m, tuple(it.td(it.simp(fr)).dims))
                frames_equal(c, d, 'the frames are what the renderer drew', fr, [m], d.called)
    pix = lambda d: [scalar_of(d.it, d.w.attr(d.det, n)) for n in ('pixel_size_z', 'pixel_size_y')]
    def smallest(d):
        a, b = pix(d)
        return [x ** 3 for x in (ite(a < b, a, b), ite(b < a, b, a), ite(a <= b, a, b), ite(b <= a, b, a), f_('min', a, b), f_('min', b, a))]
    for tag, kw, lim in (('limits given', dict(macro_grain_limit=Sym(ML.t, 'float'), micro_grain_limit=Sym(mL.t, 'float')), lambda d: ([ML], mL)),
                         ('default limits', {}, lambda d: (smallest(d), E(0.1 ** 3))),
                         ('micro limit given', dict(micro_grain_limit=Sym(mL.t, 'float')), lambda d: (smallest(d), mL)),
                         ('macro limit given', dict(macro_grain_limit=Sym(ML.t, 'float')), lambda d: ([ML], E(0.1 ** 3)))):
        for F in (2,) + ((7201,) if tag == 'limits given' else ()) + ((1, 4) if c.thorough else ()):
            with c.scope('auto, %s, %d frames' % (tag, F)):
                d = scene(c); d.F = F; spy(c, d); it = d.it
                r = it.simp(d.w.meth(d.det, 'render', d.pd, F, method='auto', **kw)); c.use(d.w)
                fr, out = list(it.iter_list(r)); d.take(it.simp(out))
                if {k.m for k in d.called} != set(NAMED):
                    miss = [m for m in NAMED if m not in {k.m for k in d.called}]
                    c.holds('all three renderers draw', False, '', 'not called: %s' % miss, unk=any(rn[m] is None for m in NAMED) or len(d.called) == 0)
                Ms, n_ = lim(d)
                big = [lambda t, M=x, op=op: op(vol(t), M) for x in Ms for op in (lambda a, b: a >= b, lambda a, b: a > b)]
                small = [lambda t: vol(t) < n_, lambda t: vol(t) <= n_]
                cond = {'macro': [b for b in big], 'nano': [(lambda t, b=b, s=s: ~b(t) & s(t)) for b in big for s in small], 'micro': [(lambda t, b=b, s=s: ~b(t) & ~s(t)) for b in big for s in small]}
                # (volumes are numbers: comparisons written the other way round)
                cond['micro'] += [lambda t, M=x: (vol(t) < M) & (vol(t) >= n_) for x in Ms]
                allrows = []
                for k in d.called:
                    hand(c, d, k, cond[k.m])
                    if k.tables: allrows += rows(d, k.tables[0])
                if all(rn.values()): compare_rows(c, 'every peak is drawn exactly once', allrows, rows(d, d.p), 'xrd_simulator.detector:render', *[rows(d, d.p, lambda t: (vol(t) >= x) | ~(vol(t) >= x) | (vol(t) < n_)) for x in Ms])
                frames_equal(c, d, 'the three contributions are summed', fr, NAMED, d.called)


def frames_equal(c, d, name, fr, ms, called):
    it = d.it; td = it.td(it.simp(fr))
    px = it.td(it.simp(d.w.attr(d.det, 'pixel_coordinates')))
    if not shaped(c, name, td, (d.F,) + tuple(px.dims[:2])): return
    g = tm.TRUE
    for k in called:
        for t, p in k.pc: g = tm.and_(g, t if p else tm.not_(t))
    for f in (range(d.F) if d.F < 10 else (0, 1, 360, d.F - 1)):
        want = E(0)
        for m in ms:
            w = tensor('frames_of_' + m, td.dims)
            want = want + E(w.cells[f, 0, 0]).at({a: E(b) for a, b in zip(w.axes, td.axes) if a is not None})
        c.eq('%s [frame %d]' % (name, f), td.cells[f, 0, 0], want, guard=g)


def hand(c, d, k, conds):
    """what a renderer is given"""
    it = d.it; m = k.m
    c.holds('%s gets one peak table' % m, len(k.tables) == 1, k.loc, '%d tables' % len(k.tables), unk=True)
    if len(k.tables) != 1: return
    t = k.tables[0]
    c.holds('%s gets the full table' % m, t.dims[1] == d.p.dims[1], k.loc, 'table %s' % (t.dims,))
    wants = [rows(d, d.p, x) for x in conds] if conds else [rows(d, d.p)]
    compare_rows(c, '%s gets the rows it is meant for' % m, rows(d, t), wants[0], k.loc, *wants[1:])
    for t2, pol in k.pc: c.holds('%s draws whenever it has peaks' % m, population(t2), k.loc, 'only when %s' % tm.show(t2, 3), unk=True)
    ints = [v for v in k.values if isinstance(v, int) and not isinstance(v, bool)]
    c.holds('%s gets the number of frames' % m, d.F in ints, k.loc, 'integers passed: %s' % ints, unk=not ints)
    if m == 'macro':
        objs = [v for v in k.values if isinstance(v, Obj)]
        for nm, o in (('beam', d.beam), ('mesh', d.mesh), ('motion', d.motion)):
            c.holds('macro gets the %s of the diffraction' % nm, any(x.oid == it.simp(o).oid for x in objs), k.loc, 'not among the arguments', unk=len(objs) < 3)

