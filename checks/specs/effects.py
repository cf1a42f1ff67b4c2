"""C07 (caller data), C08 (snapshot), C10 (renderer selection), C16 (silence), C17 (dtype), C18 (determinism)."""
from ..lib import *
from engine.vals import *
from .formulas import shaped, pc_term
from .motion import same_tensor
from .diffract import NAMES, Scene, structure_factor_model
from .detect import *
from .detect import DetScene
import re

METHODS = ('micro', 'nano', 'macro', 'auto')
SAY = ('print', 'warn', 'log')
HIDDEN = ('rng', 'clock')


def pc_text(e): return re.sub(r'\d+', '#', ' & '.join(('' if pol else 'not ') + tm.show(t, 12) for t, pol in e.pc))


def cond_text(e): return ' and '.join(('' if pol else 'not ') + tm.show(t, 3)[:60] for t, pol in e.pc) or 'always'


def absent(c, name, events, loud=(), given=()):
    """none of the events can happen; loud: events of the same program where they may (an event under the same
    conditions there is not guarded at all); given: conditions that hold whenever the analysed call returns"""
    given = {(t.id, p) for t, p in given}
    texts = {(e.loc, pc_text(e)) for e in loud}
    worst = tm.PROVED; where = why = ''
    for e in events:
        epc = [x for x in e.pc if (x[0].id, x[1]) not in given]
        # a condition on library values that no interpretation realises tells nothing about reachability
        v, reason = tm.decide(pc_term([x for x in epc if not (tm.uninterpreted(x[0]) and tm.decide(pc_term([x]), tm.FALSE)[0] != tm.VIOLATED)]), tm.FALSE)
        if v == tm.PROVED: continue
        if (e.loc, pc_text(e)) in texts or not epc: v = tm.VIOLATED
        if v == tm.VIOLATED or worst == tm.PROVED: worst, where, why = v, e.loc, '%s %s in %s, when %s' % (e.kind, str(e.data)[:60], e.stack[-1] if e.stack else '', cond_text(e)[:300])
        if v == tm.VIOLATED: break
    return c.add(name, worst, where, why)


# ------------------------------------------------------------------ C16
@check('C16')
def c16(c):
    def render(m, in_dict, *runs):
        d = DetScene(c, verbose=in_dict, gaussian_sigma=Sym(atom("gsig", pos=True), "float"))
        e = len(d.it.events)
        for kw in runs:
            e = len(d.it.events)
            d.w.meth(d.det, 'render', d.pd, 2 if kw.get('F') is None else kw['F'], method=m, **{k: v for k, v in kw.items() if k != 'F'}); c.use(d.w)
        return [x for x in d.it.events[e:] if x.kind in SAY]
    for m in METHODS:
        loud = render(m, True, {})
        c.holds('%s: verbose rendering reports' % m, True)
        for tag, in_dict, runs in (('verbose=False', True, ({'verbose': False},)), ('verbose inherited from the diffraction', False, ({},)),
                                   ('verbose=False after a verbose rendering', True, ({'verbose': True}, {'verbose': False})), ('inherited after a verbose rendering', False, ({'verbose': True}, {})),
                                   ('no frames asked for', False, ({'F': 0},)), ('no frames, verbose=False', True, ({'F': 0, 'verbose': False},))):
            with c.scope('render %s, %s' % (m, tag)):
                absent(c, 'is silent', render(m, in_dict, *runs), loud)
    for pre in (False, True):
        with c.scope('peaks_detector_intersection(verbose=False)' + (' after a verbose one' if pre else '')):
            out = []
            for v in (True, False):
                d = DetScene(c, verbose=True)
                if pre: d.w.meth(d.det, 'peaks_detector_intersection', d.pd, 2, True)
                e = len(d.it.events)
                d.w.meth(d.det, 'peaks_detector_intersection', d.pd, 2, verbose=v); c.use(d.w)
                out.append([x for x in d.it.events[e:] if x.kind in SAY])
            absent(c, 'is silent', out[1], out[0])
    for tag, kw in (('one phase', dict(nphases=1)), ('two phases', {}), ('no structure file', dict(nphases=1, cif=False)), ('with a detector', dict(detector=True))) + ((('one orientation for all', dict(per_element=False)), ('two phases without files', dict(cif=False))) if c.thorough else ()):
        with c.scope('diffract, %s' % tag):
            ev = []
            for v in (True, False):
                s = Scene(c, verbose=v, **kw)
                ev.append([x for x in s.it.events[s.ne:] if x.kind in SAY])
                c.holds('the choice verbose=%s is stored for the rendering' % v, s.it.simp(s.D.get('verbose')) is v, loc_of(s.peaks), 'stored %r' % (s.D.get('verbose'),), unk=isinstance(s.it.simp(s.D.get('verbose')), (Opq, Sym, Phi)))
            absent(c, 'is silent', ev[1], ev[0])
    for dev in ('cpu', 'cuda', 'auto', None):
        with c.scope('configure_device(%r, verbose=False)' % (dev,)):
            ev = []
            for v in (True, False):
                w = World(); e = len(w.it.events)
                w.run(w.func('cuda', 'configure_device'), dev, verbose=v) if dev else w.run(w.func('cuda', 'configure_device'), verbose=v)
                c.use(w); ev.append([x for x in w.it.events[e:] if x.kind in SAY])
            absent(c, 'is silent', ev[1], ev[0])


# ------------------------------------------------------------------ C17
@check('C17')
def c17(c):
    for m in METHODS:
        for pk in ('f64', 'f32'):
            for want in (None, 'f32', 'f64'):
                if not c.thorough and pk == 'f64' and want == 'f64': continue
                with c.scope('%s, peaks %s, render_dtype %s' % (m, pk, want)):
                    d = DetScene(c, dtype=pk, gaussian_sigma=Sym(atom("gsig", pos=True), "float")); it = d.it
                    kw = {} if want is None else {'render_dtype': torch_dtype(it, want)}
                    r = d.w.meth(d.det, 'render', d.pd, 2, method=m, **kw); c.use(d.w)
                    fr = it.simp(list(it.iter_list(it.simp(r)))[0])
                    dtypes_are(c, it, 'dtype of the frames', fr, want or pk)
                    if pk != 'f64': continue        # (tables come out of diffract in double precision)
                    bad = [e for e in d.events('dtype') if '?' not in str(e.data) and 'mix' not in str(e.data)]
                    c.holds('accumulation and convolution get operands of one precision', not bad, bad[0].loc if bad else '', bad[0].data if bad else '')
        with c.scope('%s, no peaks at all' % m):
            for want in ('f32', 'f64'):
                d = DetScene(c, N=0); it = d.it
                r = d.w.meth(d.det, 'render', d.pd, 2, method=m, render_dtype=torch_dtype(it, want)); c.use(d.w)
                fr = it.simp(list(it.iter_list(it.simp(r)))[0])
                dtypes_are(c, it, 'dtype of the frames (%s)' % want, fr, want)


def dtypes_are(c, it, name, v, want):
    """every value merged into v is a tensor of dtype `want`"""
    def leaves(v):
        v = it.simp(v)
        if isinstance(v, Phi): return leaves(v.a) + leaves(v.b)
        return [v]
    for x in leaves(v):
        if not isinstance(x, T): c.undecided(name, 'frames are %r' % (x,)); continue
        td = it.td(x)
        c.holds(name, td.dtype == want, loc_of(td), 'frames are %s instead of %s' % (td.dtype, want), unk=not re.fullmatch(r'(mix:|\||f32|f64|f16|i64|i32|c128|bool)+', str(td.dtype)))


def torch_dtype(it, n):
    from engine.extern import ext_attr
    return ext_attr(it, Ext('torch'), {'f32': 'float32', 'f64': 'float64'}[n])
