"""C07 (caller data), C08 (a diffraction result is a snapshot), C18 (determinism)."""
from ..lib import *
from engine.vals import *
from .diffract import structure_factor_model
from .detect import clip_model, peaks_dict, DetScene
from .effects import absent, HIDDEN, METHODS
from .motion import has
from ..lib import expand
from ..lanes import OLane, only, conjuncts


class Snapshot:
    anylib = False          # a numpy array may come back as a torch array
    skip = ()               # attributes that are not compared
    """contents of everything reachable from some values (arrays, containers, objects of the repository)"""
    def __init__(self, w, **roots):
        self.w, self.it = w, w.it; self.heap = {}; self.path = {}
        self.ne = len(self.it.events)
        for n, v in roots.items(): self.walk(v, n)

    def walk(self, v, path):
        it = self.it; v = it.simp(v)
        if isinstance(v, Phi): self.walk(v.a, path); self.walk(v.b, path); return
        if isinstance(v, tuple):
            for i, x in enumerate(v): self.walk(x, '%s[%d]' % (path, i))
            return
        if not isinstance(v, (T, Lst, Dct, Obj)) or v.oid in self.heap: return
        h = it.heap.get(v.oid)
        if h is None: return
        self.heap[v.oid] = (v, dict(h) if isinstance(h, dict) else h); self.path[v.oid] = path
        if isinstance(v, Lst):
            for i, x in enumerate(h):
                if not isinstance(x, Gen): self.walk(x, '%s[%d]' % (path, i))
        elif isinstance(v, (Dct, Obj)):
            for k, x in h.items(): self.walk(x, '%s%s' % (path, "['%s']" % k if isinstance(v, Dct) else '.%s' % k))

    def exempt(self, v, k):
        """attributes documented to be set by the call: the reflection list of a phase"""
        c = self.it.simp(v)
        return isinstance(c, Obj) and cls_name(self.it, c) == 'Phase' and k not in ('unit_cell', 'sgname', 'path_to_cif_file')

    def audit(self, c, name):
        """nothing of it has changed"""
        it = self.it; n = 0
        self.written = {}
        for e in it.events[self.ne:]:
            if e.kind == 'mutate': self.written.setdefault(e.data[0], e)
            elif e.kind in ('setitem', 'setattr'):
                o = it.simp(e.data[0])
                if hasattr(o, 'oid'): self.written.setdefault(('o', o.oid), e)
        for oid, (v, old) in self.heap.items():
            new = it.heap.get(oid)
            if isinstance(v, T):
                n += 1
                if new is old: continue
                self.tensors(c, name, self.path[oid], new, old)
            elif isinstance(v, Lst):
                n += 1
                if new == old: continue
                if len(new) != len(old): self.verdict(c, name, self.path[oid], tm.VIOLATED, '%d items instead of %d' % (len(new), len(old)), ('o', oid)); continue
                for i, (a, b) in enumerate(zip(new, old)): self.values(c, name, '%s[%d]' % (self.path[oid], i), a, b, ('o', oid))
            else:
                for k, b in old.items():
                    if self.exempt(v, k): continue
                    n += 1
                    if k not in new: self.verdict(c, name, '%s.%s' % (self.path[oid], k), tm.VIOLATED, 'removed', ('o', oid)); continue
                    if new[k] is b: continue
                    self.values(c, name, '%s.%s' % (self.path[oid], k), new[k], b, ('o', oid))
                if isinstance(v, Dct):
                    for k in new:
                        if k not in old and not any(s.startswith('_') for s in self.path[oid].split('.')[1:]): self.verdict(c, name, "%s['%s']" % (self.path[oid], k), tm.VIOLATED, 'added', ('o', oid))
        c.holds('%s (%d arrays, entries and attributes)' % (name, n), True)

    def verdict(self, c, name, path, v, why, key):
        e = self.written.get(key)
        c.add('%s: %s' % (name, path), v, e.loc if e else '', why)

    def tensors(self, c, name, path, new, old):
        if not isinstance(new, TD): return self.verdict(c, name, path, tm.UNDECIDED, 'content %r' % (new,), old.root)
        if not self.anylib and new.lib != old.lib and {new.lib, old.lib} <= {'numpy', 'torch'}: return self.verdict(c, name, path, tm.VIOLATED, 'has become a %s array' % new.lib, old.root)
        if new.dtype != old.dtype and '?' not in new.dtype and 'mix' not in new.dtype: return self.verdict(c, name, path, tm.VIOLATED, 'has become %s instead of %s' % (new.dtype, old.dtype), old.root)
        unk = any(x.unk for x in new.cells.flat)
        if len(new.dims) != len(old.dims) or not all(same_dim(a, b) for a, b in zip(new.dims, old.dims)):
            return self.verdict(c, name, path, tm.UNDECIDED if unk else tm.VIOLATED, 'shape %s instead of %s' % (new.dims, old.dims), old.root)
        at = {a: b for a, b in zip(old.axes, new.axes) if a is not None and b is not None}
        worst = (tm.PROVED, '')
        for i in np.ndindex(*old.cells.shape):
            if new.cells.shape != old.cells.shape: worst = (tm.UNDECIDED, 'representation'); break
            if new.cells[i] is old.cells[i]: continue
            v, why = tm.decide(new.cells[i], tm.let(at, old.cells[i]))
            if v != tm.PROVED: worst = (v, why + '; now %s' % tm.show(new.cells[i], 3)[:120])
            if v == tm.VIOLATED: break
        v, why = worst
        if v == tm.UNDECIDED and old.root in self.written and self.real(self.written[old.root]): v, why = tm.VIOLATED, 'written in place (%s)' % self.written[old.root].data[2]
        if v != tm.PROVED: self.verdict(c, name, path, v, why, old.root)

    def real(self, e):
        from .formulas import pc_term
        return not any(tm.uninterpreted(t) for t, p in e.pc) and tm.decide(pc_term(e.pc), tm.FALSE)[0] == tm.VIOLATED or not e.pc

    def values(self, c, name, path, a, b, key):
        it = self.it; a, b = it.simp(a), it.simp(b)
        if a is b or type(a) is type(b) and not isinstance(a, (Phi, Opq)) and a == b: return
        if isinstance(a, Phi): return self.merged(c, name, path, a, b, key)
        last = path.rsplit('.', 1)[-1]
        if b is None and last.startswith('_'): return                # a private cache that is filled
        if isinstance(a, T) and isinstance(b, T):
            old = self.heap[b.oid][1] if b.oid in self.heap else it.heap[b.oid]
            n0 = len(c.obl); self.tensors(c, name, path, it.heap[a.oid], old)
            if len(c.obl) > n0 and key in self.written: c.obl[-1] = c.obl[-1][:2] + (self.written[key].loc,) + c.obl[-1][3:]
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)): self.values(c, name, '%s[%d]' % (path, i), x, y, key)
            return
        num = lambda x: isinstance(x, (int, float, bool, Sym, str)) or x is None
        if num(a) and num(b):
            v, why = tm.decide(it.as_term(a), it.as_term(b)) if not (isinstance(a, str) or isinstance(b, str)) else (tm.VIOLATED, '%r instead of %r' % (a, b))
            if v != tm.PROVED: self.verdict(c, name, path, v, why, key)
            return
        if isinstance(a, (Obj, Lst, Dct)) and type(a) is type(b) and b.oid in self.heap:
            # another container in its place: its content is compared
            ha, hb = it.heap[a.oid], self.heap[b.oid][1]
            if isinstance(a, Lst):
                if len(ha) != len(hb): return self.verdict(c, name, path, tm.VIOLATED, 'replaced', key)
                for i, (x, y) in enumerate(zip(ha, hb)):
                    if not isinstance(x, Gen): self.values(c, name, '%s[%d]' % (path, i), x, y, key)
                return
            if len(path) > 200: return
            for k in hb:
                if k not in ha: self.verdict(c, name, '%s.%s' % (path, k), tm.VIOLATED, 'replaced', key)
                elif not self.exempt(b, k) and k not in self.skip: self.values(c, name, '%s.%s' % (path, k), ha[k], hb[k], key)
            return
        unk = isinstance(a, (Phi, Opq)) or isinstance(b, (Phi, Opq)) or not isinstance(a, (T, Lst, Dct, Obj, str, int, float, bool, type(None)))
        if isinstance(a, Opq) and isinstance(b, Opq) and tm.equal(it.as_term(a), it.as_term(b)): return
        self.verdict(c, name, path, tm.UNDECIDED if unk else tm.VIOLATED, 'replaced by %r' % (a,), key)


def cls_name(it, o):
    k = getattr(o, 'cls', None)
    return getattr(k, 'name', '') or getattr(getattr(k, 'node', None), 'name', '')


def _merged(self, c, name, path, a, b, key):
    for x, cond in ((a.a, a.c), (a.b, tm.not_(a.c))):
        if tm.decide(cond, tm.FALSE)[0] != tm.PROVED: self.values(c, name, path, x, b, key)
Snapshot.merged = _merged


def caller(c, tag, make, call, name='the caller\'s data is as before'):
    """make(w) -> dict of named caller values; call(w, those) runs the entry point"""
    with c.scope(tag):
        w = World()
        vals = make(w)
        s = Snapshot(w, **vals)
        try: call(w, vals)
        except Stop: c.holds('%s: raises' % name, True)
        c.use(w); s.audit(c, name)


N = Base('points')

def P3(w, n, lib): return w.t(n, N, 3, lib=lib)


@check('C07')
def c07(c):
    libs = ('numpy', 'torch')
    for lib in libs:
        L = '(%s)' % lib
        # motions
        def mk(w, lib=lib): return dict(axis=w.vec(unit([E(atom('ax%d' % i)) for i in range(3)]), lib), translation=w.t('tr', 3, lib=lib), origin=w.t('og', 3, lib=lib))
        caller(c, 'RigidBodyMotion ' + L, mk, lambda w, v: w.new('motion', 'RigidBodyMotion', v['axis'], w.s('ang', pos=True), v['translation'], v['origin']))
        for dims, td in (((N, 3), None), ((N, 3), (N,)), ((3,), None), ((Base('groups'), 4, 3), (Base('groups'),))):
            for m in ('__call__', 'rotate', 'translate'):
                if m != '__call__' and (len(dims) != 2 or (m == 'translate' and td)): continue
                def mk(w, lib=lib, dims=dims, td=td):
                    r = dict(motion=w.motion(), points=w.t('v', *dims, lib=lib))
                    if td: r['times'] = w.t('times', *td, lib=lib)
                    return r
                caller(c, 'motion.%s of %s %s %s' % (m, dims, td or 'one time', L), mk, lambda w, v, m=m: w.meth(v['motion'], m, v['points'], v.get('times', w.s('time'))))
        def use_inverse(w, v):
            i = w.meth(v['motion'], 'inverse'); w.meth(i, '__call__', v['points'], w.s('time'))
        caller(c, 'motion.inverse ' + L, lambda w, lib=lib: dict(motion=w.motion(), points=P3(w, 'v', lib)), use_inverse)
        # beams
        def mk(w, lib=lib):
            D = [E(atom('d%d' % i)) for i in range(3)]; Q = [E(atom('q%d' % i)) for i in range(3)]
            return dict(vertices=P3(w, 'bv', lib), direction=w.vec(D, lib), polarization=w.vec(vsub(Q, scale(dot(Q, D) / dot(D, D), D)), lib), new_vertices=P3(w, 'bw', lib))
        def use(w, v):
            b = w.new('beam', 'Beam', v['vertices'], v['direction'], w.s('wl', pos=True), v['polarization'])
            w.meth(b, 'set_beam_vertices', v['new_vertices'])
        caller(c, 'Beam and set_beam_vertices ' + L, mk, use)
        caller(c, 'beam._contains ' + L, lambda w, lib=lib: dict(beam=w.beam(), points=w.t('q', 3, N, lib=lib)), lambda w, v: w.meth(v['beam'], '_contains', v['points']))
        # detectors
        def mk(w, lib=lib):
            w.detector(); r = {'corner%d' % i: w.vec(x, lib) for i, x in enumerate(w.corners)}
            r['pixel_size'] = w.it.mkL([w.s('pz', pos=True), w.s('py', pos=True)]); r['n_pixels'] = w.it.mkL([5, 7])
            return r
        caller(c, 'Detector(pixel_size) ' + L, mk, lambda w, v: w.new('detector', 'Detector', v['corner0'], v['corner1'], v['corner2'], pixel_size=v['pixel_size']))
        caller(c, 'Detector(n_pixels) ' + L, mk, lambda w, v: w.new('detector', 'Detector', v['corner0'], v['corner1'], v['corner2'], n_pixels=v['n_pixels']))
        caller(c, 'detector._get_wrapping_cone ' + L, lambda w, lib=lib: dict(detector=w.detector(), k=w.t('k', 3, lib=lib), source=w.t('s', 3, lib=lib)), lambda w, v: w.meth(v['detector'], '_get_wrapping_cone', v['k'], v['source']))
        # meshes
        def mk(w, lib=lib):
            w.mesh(lib); return dict(coord=w.in_coord, enod=w.in_enod, motion=w.motion(), axis=w.vec(unit([E(atom('ax%d' % i)) for i in range(3)]), lib), shift=w.t('shift', 3, lib=lib))
        def use(w, v):
            m = w.run(w.attr(w.cls('mesh', 'TetraMesh'), 'generate_mesh_from_vertices'), v['coord'], v['enod'])
            for step in v['steps']:
                if step == 'update': w.meth(m, 'update', v['motion'], w.s('time'))
                elif step == 'rotate': w.meth(m, 'rotate', v['axis'], w.s('turn'))
                else: w.meth(m, 'translate', v['shift'])
        for steps in (('update', 'rotate', 'translate', 'update'), ('translate', 'translate', 'update'), ('rotate', 'translate')):
            caller(c, 'TetraMesh, %s %s' % (', '.join(steps), L), lambda w, mk=mk, steps=steps: dict(mk(w), steps=steps), use)
        caller(c, 'mesh.save ' + L, lambda w, lib=lib: dict(mesh=w.mesh(lib), data=w.it.mkD({'a': w.t('a', w.elements, lib=lib), 'b': w.it.mkL([w.s('b0'), w.s('b1')])})), lambda w, v: w.meth(v['mesh'], 'save', 'file.name', v['data']))
        # polycrystals
        for per in (True, False):
            def mk(w, lib=lib, per=per):
                m = w.mesh(lib); dims = ((w.elements,) if per else ()) + (3, 3)
                ev = (var(w.elements),) if per else ()
                ph = w.phases(2)
                pcell = np.empty((1,), dtype=object); pcell[0] = tm.choice('phase_index', 2, var(w.elements))
                return dict(mesh=m, orientation=w.mat(w.rotmat('U', *ev), dims, lib), strain=w.mat([[E(atom('eps_%d%d' % (min(i, j), max(i, j)), *ev)) for j in range(3)] for i in range(3)], dims, lib),
                            phases=w.it.mkL(ph), phase_map=w.it.newT(TD((w.elements,), [var(w.elements)], pcell, 'i64', lib)), shift=w.t('shift', 3, lib=lib), motion=w.motion(), beam=w.beam(), detector=w.detector())
            def use(w, v):
                structure_factor_model(w, [])
                p = w.new('polycrystal', 'Polycrystal', v['mesh'], v['orientation'], v['strain'], v['phases'], v['phase_map'])
                w.meth(p, 'transform', v['motion'], w.s('time')); w.meth(p, 'transform', v['motion'], w.s('time2'))
                w.meth(p, 'diffract', v['beam'], v['motion']); w.meth(p, 'diffract', v['beam'], v['motion'], detector=v['detector'])
                w.meth(p, 'save', 'some.file')
                for m in ('mesh_lab', 'mesh_sample'): w.meth(w.attr(p, m), 'translate', v['shift'])
            caller(c, 'Polycrystal, transform, diffract and save, %s orientations %s' % ('individual' if per else 'common', L), mk, use)
        # structure factors
        def mk(w, lib=lib):
            return dict(hkl=w.t('hkl', Base('reflections'), 3, lib=lib), unit_cell=w.it.mkL([w.s('uc%d' % i, pos=True) for i in range(6)]))
        caller(c, 'structure factors ' + L, mk, lambda w, v: w.run(w.func('structure_factors', 'compute_structure_factors_batch'), v['hkl'], v['unit_cell'], 'P1', 'file.cif'))
        # formulas
        def mk(w, lib=lib):
            G = Base('grains'); e = [[E(atom('ep%d%d' % (min(i, j), max(i, j)), var(G))) for j in range(3)] for i in range(3)]
            return dict(U=w.mat(w.rotmat('U', var(G)), (G, 3, 3), lib), strain=w.mat(e, (G, 3, 3), lib), B0=w.t('B0', 3, 3, lib=lib), hkl=w.t('hkl', Base('reflections'), 3, lib=lib), k=w.t('k', 3, lib=lib), G=w.t('G', N, 3, lib=lib), pol=w.t('p', 3, lib=lib), volumes=w.t('vol', N, lib=lib, pos=True), tth=w.t('tth', N, lib=lib))
        caller(c, 'lattice deformation ' + L, mk, lambda w, v: w.run(w.func('utils', '_lab_strain_to_B_matrix'), v['strain'], v['U'], v['B0']))
        if lib == 'torch':
            caller(c, 'reciprocal vectors', mk, lambda w, v: w.run(w.func('laue', '_get_G'), v['U'], v['strain'], v['hkl']))
            caller(c, 'Lorentz factor', mk, lambda w, v: w.run(w.func('scattering_factors', '_lorentz'), v['k'], v['G'], v['pol']))
            caller(c, 'polarization factor', mk, lambda w, v: w.run(w.func('scattering_factors', '_polarization'), v['G'], v['pol']))
            caller(c, 'Scherrer width', mk, lambda w, v: w.run(w.func('scattering_factors', '_scherrer'), v['volumes'], v['tth'], w.s('wl', pos=True)))
            def mk2(w):
                g = w.t('G0', Base('grains'), 3, Base('reflections'), lib='torch')
                return dict(G0=g, r0=w.t('r0', 3, lib=lib), r1=w.t('r1', 3, lib=lib), r2=w.t('r2', 3, lib=lib))
            caller(c, 'Laue solutions', mk2, lambda w, v: w.run(w.func('laue', '_find_solutions_to_tangens_half_angle_equation'), v['G0'], v['r0'], v['r1'], v['r2'], w.s('dw', pos=True)))
            caller(c, 'detector._get_intersection', lambda w: dict(detector=w.detector(), rays=P3(w, 'ray', lib), sources=P3(w, 'src', lib)), lambda w, v: w.meth(v['detector'], '_get_intersection', v['rays'], v['sources']))
    def mk(w): return dict(beam=w.beam(), motion=w.motion(), detector=w.detector())
    def saves(w, v):
        for k in ('beam', 'motion', 'detector'): w.meth(v[k], 'save', 'some.dir/file')
    caller(c, 'saving a beam, a motion and a detector', mk, saves)
    caller(c, 'Phase', lambda w: dict(unit_cell=w.it.mkL([w.s('uc%d' % i, pos=True) for i in range(6)])), lambda w, v: w.meth(w.new('phase', 'Phase', v['unit_cell'], 'P1', 'f.cif'), '_setup_diffracting_planes', w.s('wl', pos=True), w.s('lo'), w.s('hi')))
    for m in METHODS + ('intersection',):
        for verbose in (True, False):
            with c.scope('render %s%s' % (m, ', verbose' if verbose else '')):
                d = DetScene(c, verbose=verbose, gaussian_sigma=Sym(atom('gsig', pos=True), 'float'))
                s = Snapshot(d.w, peaks_dict=d.pd, detector=d.det, beam=d.beam, motion=d.motion, mesh=d.mesh)
                for F in (2, 3):
                    if m == 'intersection': d.w.meth(d.det, 'peaks_detector_intersection', d.pd, F, verbose)
                    else: d.w.meth(d.det, 'render', d.pd, F, method=m)
                c.use(d.w); s.audit(c, "the caller's data is as before")


@check('C08')
def c08(c):
    for tag, kw in (('two phases', {}), ('one phase, common orientation', dict(nphases=1, per_element=False))):
        for step in ('transform', 'transform and diffract', 'diffract', 'diffract with a detector', 'render', 'move the mesh') + (('transform twice, diffract, render',) if c.thorough else ()):
            with c.scope('%s, then %s' % (tag, step)):
                from .diffract import Scene
                s = Scene(c, verbose=False, **kw); w = s.w
                clip_model(w)
                m2 = w.motion('later'); b2 = w.beam('later'); det = w.detector()
                snap = Snapshot(w, result=s.r)
                if 'transform' in step: w.meth(s.pc, 'transform', m2, w.s('later'))
                if 'twice' in step: w.meth(s.pc, 'transform', m2, w.s('later2'))
                if 'diffract' in step: w.meth(s.pc, 'diffract', b2, m2, **(dict(detector=det) if 'detector' in step else {}))
                if 'render' in step:
                    for m in METHODS: w.meth(det, 'render', s.r, 2, method=m)
                if 'mesh' in step: w.meth(w.attr(s.pc, 'mesh_lab'), 'translate', w.t('shift', 3))
                c.use(w); snap.audit(c, 'the result is as it was')
    # what is rendered comes from the result alone


# ------------------------------------------------------------------ C18
def hidden(it, e0, kinds=HIDDEN): return [e for e in it.events[e0:] if e.kind in kinds and not any('<module>' in str(s) for s in e.stack[-1:])]


def table_rows(it, p, n=25):
    ax = p.axes[0]
    if ax is None: raise V.Unsupported('table without symbolic rows')
    return [(m, [E(tm.let({ax: x}, p.cells[0, i])) for i in range(n)], b) for x, m, b in expand(ax.args[0])]


@check('C18')
def c18(c):
    from .diffract import Scene
    for tag, kw in (('two phases', {}), ('one phase, common orientation', dict(nphases=1, per_element=False)), ('with a detector', dict(detector=True)), ('no structure files', dict(cif=False))):
        with c.scope('diffract, %s' % tag):
            s = Scene(c, verbose=False, **kw); it = s.it
            absent(c, 'no random numbers and no clock', hidden(it, 0), given=it.pc)
            first = table_rows(it, s.peaks, 24)
            args = dict(verbose=False, **({'detector': s.det} if 'detector' in kw else {}))
            r2 = it.simp(s.w.meth(s.pc, 'diffract', s.beam, s.mo, **args))
            p2 = it.td(it.simp(it.heap[r2.oid]['peaks']))
            if not shaped_like(c, 'the same table again', p2, s.peaks): continue
            compare_rows(c, 'the same diffraction gives the same peaks', table_rows(it, p2, 24), first, loc_of(p2))
            b2 = s.w.beam('B'); m2 = s.w.motion('B')
            s.w.meth(s.pc, 'diffract', b2, m2, s.w.s('earlier_min_bragg'), s.w.s('earlier_max_bragg'), verbose=False)
            r3 = it.simp(s.w.meth(s.pc, 'diffract', s.beam, s.mo, **args)); c.use(s.w)
            p3 = it.td(it.simp(it.heap[r3.oid]['peaks']))
            if shaped_like(c, 'the same table after another diffraction', p3, s.peaks): compare_rows(c, 'the same peaks also after another diffraction', table_rows(it, p3, 24), first, loc_of(p3))
    for m in ('micro', 'nano', 'intersection'):
        def table(d, F, m=m):
            r = d.it.simp(d.w.meth(d.det, 'peaks_detector_intersection', d.pd, F, verbose=False) if m == 'intersection' else d.w.meth(d.det, 'render', d.pd, F, method=m, verbose=False))
            return r if m == 'intersection' else d.it.simp(list(d.it.iter_list(r))[1])
        for tag, seq in (('at once', (3,)), ('again', (3, 3)), ('after other calls', (5, 'other', 3)), ('after fewer frames', (1, 3))):
            with c.scope('render %s, %s' % (m, tag)):
                d = DetScene(c, gaussian_sigma=Sym(atom('gsig', pos=True), 'float'))
                for F in seq:
                    if F == 'other': d.w.meth(d.det, 'render', d.pd, 2, method='nano' if m == 'micro' else 'micro', verbose=False)
                    else: r = table(d, F)
                c.use(d.w)
                absent(c, 'no random numbers and no clock', hidden(d.it, 0), given=d.it.pc)
                rows_ = table_rows(d.it, d.take(r), 30)
                if len(seq) == 1: first = rows_
                else: compare_rows(c, 'the same call gives the same table', rows_, first, loc_of(d.p))
    with c.scope('render macro'):
        d = DetScene(c, gaussian_sigma=Sym(atom('gsig', pos=True), 'float'))
        d.w.meth(d.det, 'render', d.pd, 2, method='macro', verbose=False); c.use(d.w)
        small_boxes_only(c, d)
    with c.scope('render auto'):
        d = DetScene(c, gaussian_sigma=Sym(atom('gsig', pos=True), 'float'))
        from .render import renderers
        q = renderers(c)['macro']
        d.w.meth(d.det, 'render', d.pd, 2, method='auto', verbose=False); c.use(d.w)
        absent(c, 'random numbers in the macro renderer only', [e for e in d.events(*HIDDEN) if q is None or not any(q in str(s) or q.rsplit('.', 1)[-1] in str(s) for s in e.stack)], given=d.it.pc)
    with c.scope('construction and movement'):
        w = World(); it = w.it; structure_factor_model(w, [])
        m = w.mesh(); mo = w.motion()
        w.meth(m, 'update', mo, w.s('time')); w.meth(m, 'rotate', w.vec(unit([E(atom('ax%d' % i)) for i in range(3)])), w.s('turn')); w.meth(m, 'translate', w.t('shift', 3))
        w.meth(mo, '__call__', w.t('v', N, 3), w.t('times', N)); w.meth(mo, 'rotate', w.t('v', N, 3), w.t('times', N)); w.meth(w.meth(mo, 'inverse'), 'translate', w.t('v', N, 3), w.s('time'))
        b = w.beam(); w.meth(b, 'set_beam_vertices', w.t('bw', N, 3, lib='torch')); w.meth(b, '_contains', w.t('q', 3, N, lib='torch'))
        d = w.detector(); w.meth(d, '_get_wrapping_cone', w.t('k', 3, lib='torch'), w.t('s', 3, lib='torch'))
        p = w.polycrystal(); w.meth(p, 'transform', mo, w.s('time'))
        ph = w.phases(1)[0]; w.meth(ph, '_setup_diffracting_planes', w.s('wl', pos=True), w.s('lo'), w.s('hi')); c.use(w)
        absent(c, 'no random numbers and no clock', hidden(it, 0), given=it.pc)
    with c.scope('beam clipping'):
        w = World(); it = w.it; b = w.beam(); e = len(it.events)
        w.meth(b, '_intersect', w.t('tet', 4, 3, lib='torch')); c.use(w)
        absent(c, 'no random numbers and no clock', hidden(it, e), given=it.pc)
    with c.scope('structure factors'):
        w = World(); it = w.it
        w.run(w.func('structure_factors', 'compute_structure_factors_batch'), w.t('hkl', Base('reflections'), 3), w.it.mkL([w.s('uc%d' % i, pos=True) for i in range(6)]), 'P1', 'file.cif'); c.use(w)
        absent(c, 'no random numbers and no clock', hidden(it, 0), given=it.pc)


def shaped_like(c, name, a, b):
    if a.ndim == b.ndim == 2 and a.dims[1] == b.dims[1]: return True
    return c.add(name, tm.UNDECIDED if any(x.unk for x in a.cells.flat) else tm.VIOLATED, loc_of(a), 'shape %s, first %s' % (a.dims, b.dims)) and False


def small_boxes_only(c, d):
    """random samples only where the pixel box has at most four pixels"""
    from .formulas import pc_term
    rng = [e for e in d.events('rng')]
    absent(c, 'no clock', d.events('clock'), given=d.it.pc)
    boxes = [b for b in map(lambda e: box_of(d, e), d.events('deposit')) if b is not None]
    if not boxes: return c.undecided('pixel box', 'no rectangle of the frame is written') if rng else None
    base = {(t.id, p) for x in d.events('deposit') if box_of(d, x) for t, p in x.pc}
    r0, r1, c0, c1 = boxes[0]
    n = (r1 - r0) * (c1 - c0)
    for e in rng:
        t = pc_term(e.pc[len(d.pc0):])
        v, why = tm.decide((n <= 4).t, tm.TRUE, t)
        conds = [x for x in conjuncts(t) if only(x, n.t)]
        if v != tm.PROVED:
            # the conditions on the number of pixels alone
            big = [k for k in list(range(1, 5)) + list(range(5, 200)) if all(OLane(0, {n.t: k}).bv(x, {}) for x in conds)]
            v = tm.PROVED if conds and max(big, default=0) <= 4 else tm.VIOLATED if conds or all((x.id, p) in base for x, p in e.pc) else tm.UNDECIDED
            why = 'happens also for boxes of %s pixels' % max(big, default='?')
        c.add('random samples only for boxes of at most four pixels', v, e.loc, why)


def box_of(d, e):
    """rows and columns of the rectangle a scatter writes: key (slice, slice)"""
    it = d.it
    k = e.data['key']
    k = list(it.iter_list(k)) if isinstance(k, Lst) else list(k) if isinstance(k, tuple) else [k]
    k = [it.simp(x) for x in k]
    if len(k) != 2 or not all(type(x).__name__ in ('slice', 'Slc', 'SliceV') for x in k): return None
    out = []
    for x in k:
        for b in ((x.start, x.stop) if isinstance(x, slice) else (x.lo, x.hi)): out.append(scalar(it, b))
    return out


def scalar(it, v):
    v = it.simp(v)
    return E(it.td(v).cells.flat[0]) if isinstance(v, T) else E(it.as_term(v))
