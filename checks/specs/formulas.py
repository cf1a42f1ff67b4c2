"""C22 (structure factors), C23 (beam), C24 (intensity factors), C25 (lattice deformation), C26 (device), C27 (mesh quantities)."""
from ..lib import *
from .diffract import lorentz, scherrer, crystal_B, element_volume
from .motion import same_tensor
import math
pi = math.pi


def shaped(c, name, td, want_dims):
    if len(td.dims) != len(want_dims) or not all(same_dim(a, b) for a, b in zip(td.dims, want_dims)):
        return c.add(name + ': shape', tm.UNDECIDED if any(x.unk for x in td.cells.flat) else tm.VIOLATED, loc_of(td) or src(td.cells.flat[0]), 'shape %s, specified %s' % (td.dims, tuple(want_dims)))
    return c.add(name + ': shape', tm.PROVED)


@check('C24')
def c24(c):
    N = Base('reflections')
    shapes = [('many reflections', (N, 3)), ('one reflection as a row', (1, 3)), ('one reflection as a vector', (3,)), ('two reflections', (2, 3)), ('three reflections', (3, 3))]
    if c.thorough: shapes += [('four reflections', (4, 3)), ('seven reflections', (7, 3))]
    for tag, dims in shapes:
        with c.scope('Lorentz factor, ' + tag):
            w = World(); it = w.it
            k = [E(atom('k_%d' % i)) for i in range(3)]; n = unit([E(atom('axis_%d' % i)) for i in range(3)])
            ko = tensor('kout', dims, lib='torch')
            for ix in np.ndindex(*ko.cells.shape[:-1]):          # elastic scattering: |k_out| = |k|
                q = scale(norm(k), unit([E(ko.cells[ix + (i,)]) for i in range(3)]))
                for i in range(3): ko.cells[ix + (i,)] = q[i].t
            r = it.to_td(w.run(w.func('scattering_factors', '_lorentz'), w.vec(k, 'torch'), it.newT(ko), w.vec(n, 'torch'))); c.use(w)
            if shaped(c, 'one factor per reflection', r, dims[:-1]):
                at = {a: E(b) for a, b in zip(ko.axes, r.axes) if a is not None}
                for ix in np.ndindex(*ko.cells.shape[:-1]):
                    K = [E(ko.cells[ix + (i,)]).at(at) for i in range(3)]
                    # elastic scattering: the scattering angle is that of the two wave vectors
                    c.eq('1/(sin 2theta |sin eta|), infinite near the poles %s' % (list(ix) or ''), r.cells[ix], lorentz(k, K, n), degenerate=True)
        with c.scope('polarization factor, ' + tag):
            w = World(); it = w.it
            p = unit([E(atom('p_%d' % i)) for i in range(3)])
            ko = tensor('kout', dims, lib='torch')
            r = it.to_td(w.run(w.func('scattering_factors', '_polarization'), it.newT(ko), w.vec(p, 'torch'))); c.use(w)
            ok = tuple(r.dims) in ((1,), ()) if dims == (3,) else shaped(c, 'one factor per reflection', r, dims[:-1])
            if ok:
                at = {a: E(b) for a, b in zip(ko.axes, r.axes) if a is not None}
                for ix in np.ndindex(*ko.cells.shape[:-1]):
                    K = [E(ko.cells[ix + (i,)]).at(at) for i in range(3)]
                    c.eq('1-(unit k_out . p)^2 %s' % (list(ix) or ''), r.cells[ix or ((0,) if r.ndim else ())], 1 - dot(unit(K), p) ** 2)
        with c.scope('Scherrer width, ' + tag):
            if len(dims) == 1: continue
            w = World(); it = w.it
            v = tensor('volume', dims[:1], lib='torch', pos=True); t = tensor('tth', dims[:1], lib='torch')
            r = it.to_td(w.run(w.func('scattering_factors', '_scherrer'), it.newT(v), it.newT(t), w.s('wl', pos=True))); c.use(w)
            if shaped(c, 'one width per reflection', r, dims[:1]):
                at = {a: E(b) for a, b in zip(v.axes, r.axes) if a is not None}
                for i in range(v.cells.shape[0]):
                    c.eq('0.9 lambda/(D cos theta) [%d]' % i, r.cells[i], scherrer(E(v.cells[i]).at(at), E(t.cells[i]).at(at), atom('wl', pos=True)))
    # the factors a diffraction reports are these functions of the right vectors
    from .diffract import Scene
    with c.scope('diffract'):
        s = Scene(c); axis = s.motion_pars()[0]
        ko = s.cols('K_out_x', 'K_out_y', 'K_out_z'); k = s.k()
        c.eq('lorentz_factors from K_out of the row and the motion axis', s.col('lorentz_factors'), lorentz(k, ko, axis), degenerate=True)
        c.eq('polarization_factors from unit K_out and the beam polarization', s.col('polarization_factors'), 1 - dot(unit(ko), unit(s.w.in_beam[2])) ** 2)
        c.eq('scherrer_fwhm from volume and 2theta of the row', s.col('scherrer_fwhm'), scherrer(s.col('volumes'), s.col('2theta'), atom('wavelength', pos=True)))


# ------------------------------------------------------------------ lattice deformation
def sym(n, *ix): return [[E(atom('%s_%d%d' % (n, min(i, j), max(i, j)), *ix)) for j in range(3)] for i in range(3)]


def chol(M):
    """upper triangular F with F^T F = M"""
    L00 = sqrt(M[0][0]); L10 = M[1][0] / L00; L20 = M[2][0] / L00
    L11 = sqrt(M[1][1] - L10 ** 2); L21 = (M[2][1] - L20 * L10) / L11
    L22 = sqrt(M[2][2] - L20 ** 2 - L21 ** 2)
    return [[L00, L10, L20], [E(0), L11, L21], [E(0), E(0), L22]]


def guarded_raise(c, w, n0, name, text):
    """a raise event whose path condition is `cond`; returns the events"""
    return [e for e in w.it.events[n0:] if e.kind == 'raise']


def special(ep, kind):
    if not kind: return ep
    return [[x if i == j and 'without' not in kind and (i == 0 or 'uni' not in kind) else E(0) for j, x in enumerate(row)] for i, row in enumerate(ep)]


@check('C25')
def c25(c):
    N = Base('grains')
    for lib in ('numpy', 'torch'):
        for tag, gd, kind in (('many grains', (N,), ''), ('one grain', (1,), ''), ('single matrices', (), ''), ('two grains', (2,), ''), ('many grains', (N,), 'diagonal strain'), ('single matrices', (), 'diagonal strain'), ('two grains', (2,), 'one with a diagonal strain'), ('two grains', (2,), 'one without strain'), ('many grains', (N,), 'uniaxial strain')):
            with c.scope('strain to B, %s (%s)%s' % (tag, lib, kind and ', ' + kind)):
                w = World(); it = w.it
                ax = (var(N),) if gd == (N,) else ()
                if gd in ((), (N,), (1,)):
                    U = w.rotmat('U', *ax); ep = special(sym('eps', *ax), kind)
                    mk = lambda M: w.mat(M, gd + (3, 3), lib) if gd != (1,) else None
                    if gd == (1,):
                        def mk(M):
                            cc = np.empty((1, 3, 3), dtype=object)
                            for i in range(3):
                                for j in range(3): cc[0, i, j] = M[i][j].t
                            return it.newT(TD((1, 3, 3), (None,) * 3, cc, 'f64', lib))
                    Us, es = [U], [ep]; tU, te = mk(U), mk(ep)
                else:
                    Us = [w.rotmat('U%d' % q) for q in range(2)]; es = [special(sym('eps%d' % q), kind if q else '') for q in range(2)]
                    def mk2(Ms):
                        cc = np.empty((2, 3, 3), dtype=object)
                        for q in range(2):
                            for i in range(3):
                                for j in range(3): cc[q, i, j] = Ms[q][i][j].t
                        return it.newT(TD((2, 3, 3), (None,) * 3, cc, 'f64', lib))
                    tU, te = mk2(Us), mk2(es)
                B0 = [[E(atom('B0_%d%d' % (i, j))) for j in range(3)] for i in range(3)]
                r = it.to_td(w.run(w.func('utils', '_lab_strain_to_B_matrix'), te, tU, w.mat(B0, (3, 3), lib))); c.use(w)
                want_dims = (3, 3) if gd in ((), (1,)) else gd + (3, 3)
                if r.dims == (1, 3, 3) and gd == (1,): want_dims = (1, 3, 3)
                if shaped(c, 'one B per grain', r, want_dims):
                    at = {var(N): E(r.axes[0])} if gd == (N,) and r.axes[0] is not None else {}
                    pre = r.ndim - 2
                    for q in range(len(Us)):
                        want = crystal_B([[x.at(at) for x in row] for row in Us[q]], [[x.at(at) for x in row] for row in es[q]], B0)
                        for i in range(3):
                            for j in range(3):
                                got = r.cells[(q,) * pre + (i, j)]
                                c.eq('B = inv(F) B0 with F^T F = 2E+1 in the crystal frame [%d,%d,%d]' % (q, i, j), got, want[i][j])
    # crystal-frame helper and its inverse
    for lib in ('torch', 'numpy'):
        with c.scope('crystal strain to B and back (%s)' % lib):
            w = World(); it = w.it
            B0 = [[E(atom('B0_%d%d' % (i, j))) if j >= i else E(0) for j in range(3)] for i in range(3)]
            C = sym('e')
            M = [[2 * C[i][j] + (1 if i == j else 0) for j in range(3)] for i in range(3)]
            F = chol(M); B = mm(inv3(F), B0)
            r = it.to_td(w.run(w.func('utils', '_epsilon_to_b'), w.mat(C, (3, 3), lib), w.mat(B0, (3, 3), lib))); c.use(w)
            if shaped(c, 'B is 3x3', r, (3, 3)):
                for i in range(3):
                    for j in range(3): c.eq('B [%d,%d]' % (i, j), r.cells[i, j], B[i][j])
            back = w.run(w.func('utils', '_b_to_epsilon'), w.mat(B, (3, 3), lib), w.mat(B0, (3, 3), lib)); c.use(w)
            got = [it.as_term(x) for x in it.iter_list(it.simp(back))]
            want = [C[0][0], C[0][1], C[0][2], C[1][1], C[1][2], C[2][2]]
            c.holds('six strain components', len(got) == 6, '', 'got %d' % len(got))
            for i, (g, x) in enumerate(zip(got, want)): c.eq('converting back gives the same strain [%d]' % i, g, x)
            t = it.to_td(w.run(w.func('utils', '_strain_as_tensor'), it.mkL([Sym(x.t, 'float') for x in want])))
            for i in range(3):
                for j in range(3): c.eq('vector to tensor [%d,%d]' % (i, j), t.cells[i, j], C[i][j])
    for tag, gd in (('one grain', ()), ('many grains', (N,))):
        with c.scope('unfeasible strain, ' + tag):
            w = World(); it = w.it; ax = (var(N),) if gd else ()
            C = sym('e', *ax); B0 = w.t('B0', 3, 3); w.func('utils', '_epsilon_to_b'); n0 = len(it.events)
            w.run(w.func('utils', '_epsilon_to_b'), w.mat(C, gd + (3, 3)), B0); c.use(w)
            ev = [e for e in it.events[n0:] if e.kind == 'raise']
            got = tm.FALSE
            for e in ev: got = tm.or_(got, pc_term(e.pc))
            M = [[(2 * C[i][j] + (1 if i == j else 0)).t for j in range(3)] for i in range(3)]
            fl = [x for row in M for x in row]
            some = (lambda b: tm.red('any', N, var(N), b)) if gd else (lambda b: b)
            lam = [tm.uf('eigvalsh', tm.num(k), *fl) for k in range(3)]
            neg = [some(tm.lt(l, tm.ZERO)) for l in lam]
            c.eq_any('refused exactly when a metric eigenvalue of some grain is negative', got, [tm.or_(tm.or_(neg[0], neg[1]), neg[2]), neg[0], some(tm.or_(tm.or_(*[tm.lt(l, tm.ZERO) for l in lam[:2]]), tm.lt(lam[2], tm.ZERO)))], where=ev[0].loc if ev else 'xrd_simulator.utils:_epsilon_to_b')
    # the polycrystal uses this with each grain's own state
    for tag, kw in (('per-element state, two phases', {}), ('common state, one phase', dict(per_element=False, nphases=1))):
        with c.scope('polycrystal, ' + tag):
            from .diffract import form_b_model, B0_of
            w = World(); form_b_model(w); it = w.it
            pc = w.polycrystal(**kw); c.use(w)
            if not hasattr(w, 'U'): continue
            try: b = it.to_td(it.simp(w.attr(pc, '_eB')))
            except Exception: c.undecided('lattice of the grains', 'no attribute holds it'); continue
            if not shaped(c, 'one B per element', b, (w.elements, 3, 3)): continue
            at = {var(w.elements): E(b.axes[0])} if kw.get('per_element', True) else {}
            e = E(b.axes[0])
            U = [[x.at(at) for x in q] for q in w.U]; ep = [[x.at(at) for x in q] for q in w.eps]
            n = kw.get('nphases', 2)
            for k in range(n):
                g = E(tm.choice('phase_index', n, e.t)).eq(k) if n > 1 else None
                B = crystal_B(U, ep, B0_of(w, k))
                for i in range(3):
                    for j in range(3): c.eq('own orientation, strain and phase %d [%d,%d]' % (k, i, j), b.cells[0, i, j], B[i][j], guard=g)


# ------------------------------------------------------------------ device selection
def pc_term(pc):
    r = tm.TRUE
    for cnd, pol in pc: r = tm.and_(r, cnd if pol else tm.not_(cnd))
    return r


def text(it, v, const):
    """boolean term: the string value v is `const`"""
    v = it.simp(v)
    if isinstance(v, Phi): return tm.ite(it.as_term(v.c) if not isinstance(v.c, tm.Term) else v.c, text(it, v.a, const), text(it, v.b, const))
    if isinstance(v, str): return tm.TRUE if v.split(':')[0] == const else tm.FALSE
    if isinstance(v, Opq): return tm.batom('is:' + const, v.t)
    raise V.Unsupported('device %r' % (v,))


def default_device_is(w, events, const, r=tm.FALSE):
    """the default device of new tensors after these events"""
    for e in events:
        if e.kind != 'set_default_device': continue
        r = tm.ite(pc_term(e.pc), text(w.it, e.data[0], const), r)
    return r


@check('C26')
def c26(c):
    av = tm.batom('cuda.is_available')
    seqs = [(None,), ('auto',), ('cpu',), ('gpu',), ('cuda',), ('gpu', 'cpu'), ('cpu', 'gpu'), ('cuda', 'cpu', 'auto'), ('auto', 'cpu', 'gpu')]
    if c.thorough:
        k = (None, 'auto', 'cpu', 'gpu', 'cuda')
        seqs = [(a,) for a in k] + [(a, b) for a in k for b in k] + [(a, b, d) for a in k for b in k for d in k]
    for seq in seqs:
        for verbose in (True, False):
            with c.scope('configure_device %s verbose=%s' % (', '.join(map(repr, seq)), verbose)):
                w = World(); it = w.it; n0 = len(it.events)
                for d in seq: last = len(it.events); r = w.run(w.func('cuda', 'configure_device'), d, verbose=verbose)
                sel = w.run(w.func('cuda', 'get_selected_device')); c.use(w)
                want = tm.FALSE if seq[-1] == 'cpu' else av
                for name, f in (('returned', lambda q: text(it, r, q)), ('selected', lambda q: text(it, sel, q)), ('default of new tensors', lambda q: default_device_is(w, it.events, q))):
                    loc = next((e.loc for e in reversed(it.events) if e.kind in ('set_default_device', 'global')), '')
                    c.eq('%s device is cuda only if requested and available' % name, f('cuda'), want, where=loc)
                    c.eq('%s device is cpu otherwise' % name, f('cpu'), tm.not_(want), where=loc)
                # whatever the default was made by others before the last call
                for q in ('cpu', 'cuda'):
                    c.eq('default device after the last call does not depend on what it was before (%s)' % q, default_device_is(w, it.events[last:], q, tm.batom('default device was %s' % q)), want if q == 'cuda' else tm.not_(want), where=loc)
    for bad in ('tpu', 'cpuu', '', 'cuda:x'):
        for before in (None, 'cpu'):
            with c.scope('unknown name %r' % bad):
                w = World(); it = w.it
                if before: w.run(w.func('cuda', 'configure_device'), before, verbose=False)
                w.run(w.func('cuda', 'get_selected_device')); n0 = len(it.events)
                try: w.run(w.func('cuda', 'configure_device'), bad, verbose=False); stopped = False
                except Stop as e: stopped = True
                c.use(w)
                ev = it.events[n0:]
                rs = [e for e in ev if e.kind == 'raise']
                c.holds('raises', stopped and bool(rs), (rs[0].loc if rs else 'xrd_simulator.cuda:configure_device'), 'accepted')
                ch = [e for e in ev if e.kind in ('set_default_device', 'global')]
                c.holds('changes nothing', not ch, ch[0].loc if ch else '', 'the selection is changed before the name is refused')
    with c.scope('on import'):
        w = World(); it = w.it
        sel = w.run(w.func('cuda', 'get_selected_device')); c.use(w)
        for q in ('cpu', 'cuda'): c.eq('selected and default device agree (%s)' % q, text(it, sel, q), default_device_is(w, it.events, q))
    with c.scope('nowhere else'):
        # effect rule: only configure_device (and the import of cuda) sets the default or the selected device
        import ast
        for path, tree in sorted(module_trees(w).items()):
            for node in ast.walk(tree):
                if isinstance(node, ast.Call):
                    f = node.func; nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                    if nm in ('set_default_device', 'set_default_tensor_type') and path != 'xrd_simulator.cuda':
                        c.holds('%s sets the default device' % path, False, '%s:%d' % (path, node.lineno), 'default device is changed outside of configure_device')
                if isinstance(node, (ast.Assign, ast.AugAssign)) and path != 'xrd_simulator.cuda':
                    for t in (node.targets if isinstance(node, ast.Assign) else [node.target]):
                        if isinstance(t, ast.Attribute) and t.attr == '_device' and isinstance(t.value, ast.Name) and t.value.id == 'cuda':
                            c.holds('%s sets the selected device' % path, False, '%s:%d' % (path, node.lineno), 'selected device is changed outside of configure_device')
        c.holds('modules scanned', True)


def module_trees(w):
    import ast, warnings
    from engine.world import REPO
    warnings.simplefilter('ignore', SyntaxWarning)
    root = os.path.join(REPO, 'xrd_simulator'); out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                try: out[os.path.relpath(p, REPO)[:-3].replace(os.sep, '.').replace('.__init__', '')] = ast.parse(open(p).read())
                except SyntaxError: pass
    return out


# ------------------------------------------------------------------ beam
@check('C23')
def c23(c):
    with c.scope('beam'):
        w = World(); it = w.it; b = w.beam(); c.use(w)
        bv, D, P_ = w.in_beam
        k = it.to_td(w.attr(b, 'wave_vector')); want = scale(2 * pi / E(atom('wavelength', pos=True)), unit(D))
        if shaped(c, 'wave_vector', k, (3,)):
            for i in range(3): c.eq('wave_vector along the direction with length 2 pi/wavelength [%d]' % i, k.cells[i], want[i])
        p = it.to_td(w.attr(b, 'polarization_vector'))
        if shaped(c, 'polarization_vector', p, (3,)):
            for i in range(3): c.eq('polarization is the unit vector along the given one [%d]' % i, p.cells[i], unit(P_)[i])
        wl = w.attr(b, 'wavelength')
        c.eq('wavelength', it.as_term(wl) if not isinstance(wl, T) else it.td(wl).cells.flat[0], atom('wavelength', pos=True))
    def state(w, b, name, when, V_):
        it = w.it
        v = it.to_td(it.simp(w.attr(b, 'vertices')))
        same_tensor(c, '%s: vertices are those set' % when, v, V_)
        ce = it.to_td(it.simp(w.attr(b, 'centroid')))
        if shaped(c, '%s: centroid' % when, ce, (3,)):
            a = V_.axes[0]
            for i in range(3):
                c.eq('%s: centroid is the mean vertex [%d]' % (when, i), ce.cells[i], E(tm.red('sum', a.args[0], a, V_.cells[0, i])) / E(tm.length(V_.dims[0])))
        hs = it.to_td(it.simp(w.attr(b, 'halfspaces')))
        return hs
    for lib in ('numpy', 'torch'):
        for via in ('constructor', 'set_beam_vertices'):
            with c.scope('%s, %s vertices' % (via, lib)):
                w = World(); it = w.it
                if via == 'constructor':
                    if lib == 'torch': continue
                    b = w.beam(); V_ = tensor('beam_vertex', (Base('beam_vertices'), 3)); T_ = w.in_beam[0]; nm = 'beam_vertex'
                else:
                    b = w.beam('old'); V_ = tensor('new_vertex', (Base('new_vertices'), 3)); nm = 'new_vertex'
                    if lib == 'numpy': continue
                    T_ = w.t('new_vertex', Base('new_vertices'), 3, lib='torch')
                    k0, p0 = it.to_td(w.attr(b, 'wave_vector')), it.to_td(w.attr(b, 'polarization_vector'))
                    w.meth(b, 'set_beam_vertices', T_)
                c.use(w)
                hs = state(w, b, 'beam', 'after ' + via, V_)
                planes_of_hull(c, hs, 'half-spaces are the facets of a convex hull')
                names = {x.args[0].rsplit('_', 1)[0] for cell in hs.cells.flat for x in tm.walk(E(cell).t) if x.op == 'atom'}
                c.holds('half-spaces are those of these vertices', names <= {nm} and bool(names), loc_of(hs) or src(hs.cells.flat[0]), 'half-spaces depend on %s' % sorted(names), unk=any(x.unk for x in hs.cells.flat) or not names)
                if via != 'constructor':
                    same_tensor(c, 'wave_vector kept', it.to_td(w.attr(b, 'wave_vector')), k0)
                    same_tensor(c, 'polarization kept', it.to_td(w.attr(b, 'polarization_vector')), p0)
                # inside = strictly inside all half-spaces
                from .diffract import illuminated
                N = Base('points')
                for tag, dims in (('points', (3, N)), ('one point', (3,)), ('three points', (3, 3))):
                    q = tensor('q', dims, lib='torch')
                    r = it.to_td(w.meth(b, '_contains', it.newT(q)))
                    if not shaped(c, '_contains of %s' % tag, r, dims[1:]): continue
                    at = {q.axes[1]: E(r.axes[0])} if dims == (3, N) else {}
                    for j in range(r.cells.size):
                        X = [E(q.cells[(i,) + ((j,) if len(dims) > 1 else ())]).at(at) for i in range(3)]
                        c.eq('_contains of %s is strictly inside all half-spaces [%d]' % (tag, j), r.cells.flat[j], illuminated(w, b, X))
    for tag, kept in (('one vertex moved', (0, 1, 3, 4)), ('the first vertex stays', (0,)), ('the last vertex stays', (4,)), ('the same vertices again', (0, 1, 2, 3, 4)), ('as many others', ())):
        with c.scope('set_beam_vertices, ' + tag):
            w = World(); it = w.it; w.beam(); D, P_ = w.in_beam[1:]
            A, B = [[[E(atom('%s_vertex_%d_%d' % ('old' if v == 'old' or r in kept else 'new', r, j))) for j in range(3)] for r in range(5)] for v in ('old', 'new')]
            def make(X, lib):
                q = np.empty((5, 3), dtype=object)
                for i in range(5):
                    for j in range(3): q[i, j] = X[i][j].t
                return it.newT(V.TD((5, 3), (None, None), q, 'f64', lib))
            mk = lambda X: w.new('beam', 'Beam', make(X, 'numpy'), w.vec(D), w.s('wavelength', pos=True), w.vec(P_))
            b = mk(A); w.meth(b, 'set_beam_vertices', make(B, 'torch')); f = mk(B); c.use(w)
            for n in ('vertices', 'centroid', 'halfspaces', 'wave_vector', 'polarization_vector'):
                same_tensor(c, '%s as in a new beam' % n, it.to_td(it.simp(w.attr(b, n))), it.to_td(it.simp(w.attr(f, n))))
    with c.scope('the beam does not follow later changes of the array given'):
        w = World(); it = w.it
        b = w.beam('old'); T_ = w.t('new_vertex', Base('new_vertices'), 3, lib='torch')
        w.meth(b, 'set_beam_vertices', T_); c.use(w)
        rt = it.td(it.simp(w.attr(b, 'vertices')))
        c.holds('vertices are an own copy', it.simp(w.attr(b, 'vertices')).oid != T_.oid and (rt.root is None or rt.root != T_.oid), loc_of(rt), 'vertices alias the array passed in')


def strip_rounding(c, t, where):
    """t without rounding to at least 5 decimals"""
    memo = {}
    def go(x):
        if not isinstance(x, tm.Term): return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'fn' and x.args[0] == 'roundd':
                d = x.args[2]
                if tm.isnum(d) and d.args[0] < 5: c.holds('planes keep at least five decimals', False, where, 'rounded to %s decimals' % tm.show(d))
                r = go(x.args[1])
            elif x.op in ('red', 'bred'): r = tm.red(x.args[0], x.args[1].args[0], x.args[1], go(x.args[2]))
            elif x.op in ('let', 'fn', 'u', 'add', 'sub', 'mul', 'div', 'neg', 'not', 'and', 'or', 'lt0', 'le0', 'eq0', 'ite'): r = tm._mk(x.op, tuple(go(a) for a in x.args))
            else: r = x
            memo[x.id] = r
        return r
    return go(t)


def planes_of_hull(c, hs, name):
    """rows of hs are the facet equations (normal, offset) of one convex hull; returns the hull term"""
    def node(t):
        return next((x for x in tm.walk(t) if x.op == 'u' and x.args[0] == 'hull.eq'), None)
    n0 = node(hs.cells[0, 0])
    if n0 is None: c.undecided(name, 'no facet equations found'); return None
    cells = [strip_rounding(c, E(hs.cells[0, j]).t, src(hs.cells[0, j])) for j in range(4)]
    t0 = cells[0]; binds = {}
    body = t0
    if t0.op == 'let':
        binds = {t0.args[i]: t0.args[i + 1] for i in range(1, len(t0.args), 2)}; body = t0.args[0]
    if body.op != 'u' or body.args[0] != 'hull.eq':
        b = node(body)
        if b is None: c.undecided(name, 'no facet equations found'); return None
        body = b
    for j in range(4):
        want = tm.uf('hull.eq', tm.num(j), *body.args[2:])
        if binds: want = tm.let(binds, want)
        c.eq('%s [column %d]' % (name, j), cells[j], want, where=src(hs.cells[0, j]))
    return body.args[2]


@check('C27')
def c27(c):
    def X(n, e): return [E(atom('coord_%d' % i, tm.iatom('enod_%d' % n, E(e).t))) for i in range(3)]
    FACES = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
    for lib in ('numpy', 'torch'):
        with c.scope('element quantities (%s input)' % lib):
            w = World(); it = w.it; m = w.mesh(lib); c.use(w); el = w.elements
            g = lambda n: it.to_td(it.simp(w.attr(m, n)))
            v = g('coord')
            if shaped(c, 'coord', v, (w.nodes, 3)):
                for i in range(3): c.eq('nodes are those given [%d]' % i, v.cells[0, i], E(atom('coord_%d' % i, v.axes[0])))
            v = g('enod')
            if shaped(c, 'enod', v, (el, 4)):
                for i in range(4): c.eq('connectivity is that given [%d]' % i, v.cells[0, i], E(tm.iatom('enod_%d' % i, v.axes[0])))
            v = g('ecentroids')
            if shaped(c, 'ecentroids', v, (el, 3)):
                e = v.axes[0]
                for i in range(3): c.eq('element centroid is the mean of its nodes [%d]' % i, v.cells[0, i], sum((X(n, e)[i] for n in range(1, 4)), X(0, e)[i]) / 4)
            ec = v
            v = g('centroid')
            if shaped(c, 'centroid', v, (3,)):
                a = ec.axes[0]
                for i in range(3): c.eq('mesh centroid is the mean of the element centroids [%d]' % i, v.cells[i], E(tm.red('sum', a.args[0], a, ec.cells[0, i])) / E(tm.length(el)))
            f = g('efaces')
            faces = None
            if shaped(c, 'efaces', f, (el, 4, 3)):
                # any order of faces and of nodes in a face
                e = f.axes[0]; faces = []
                for q in range(4):
                    hit = None
                    for tri in FACES:
                        for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
                            if all(tm.equal(f.cells[0, q, k], tm.iatom('enod_%d' % tri[p[k]], e)) for k in range(3)): hit = tri
                    faces.append(hit)
                unk = any(x.unk for x in f.cells.flat)
                c.holds('the faces are the four node triples', None not in faces and len(set(faces)) == 4, src(f.cells[0, 0, 0]), 'faces %s' % faces, unk=unk)
            v = g('enormals')
            if faces and None not in faces and shaped(c, 'enormals', v, (el, 4, 3)):
                e = v.axes[0]; at = {}
                for q in range(4):
                    tri = faces[q]; opp = ({0, 1, 2, 3} - set(tri)).pop()
                    A, B, C_, D = [X(n, e) for n in tri + (opp,)]
                    n = cross(vsub(B, A), vsub(C_, A)); n = scale(1 / norm(n), n)
                    side = dot(n, vsub(D, A))          # the fourth node lies on the inner side
                    want = [ite(side > 0, -x, x) for x in n]
                    g_ = ~(side.eq(0))
                    got = [E(v.cells[0, q, i]) for i in range(3)]
                    c.eq('normal of face %d is a unit vector' % q, dot(got, got), E(1), where=src(v.cells[0, q, 0]))
                    # direction and side are checked without naming the predicate the code uses
                    c.eq('normal of face %d is orthogonal to the face' % q, absv(dot(got, vsub(B, A))) + absv(dot(got, vsub(C_, A))), E(0), where=src(v.cells[0, q, 0]))
                    outward(c, 'normal of face %d points out of the element' % q, [x.t for x in got], A, D, e, src(v.cells[0, q, 0]))
            v = g('evolumes')
            if shaped(c, 'evolumes', v, (el,)):
                c.eq('element volume is |det|/6', v.cells[0], element_volume(v.axes[0]))
    with c.scope('volumes used for intensities'):
        w = World(); it = w.it; pc = w.polycrystal(); c.use(w)
        from .diffract import Scene
        s = Scene(c)
        c.eq('grain volume of a peak is |det|/6 of its element', s.col('volumes'), element_volume(s.col('grain_index').t))
    with c.scope('tetrahedra volumes'):
        w = World(); it = w.it; T4 = Base('tets')
        q = tensor('x', (T4, 4, 3), lib='torch')
        r = it.to_td(w.run(w.func('utils', '_compute_tetrahedra_volumes'), it.newT(q))); c.use(w)
        if shaped(c, 'one volume each', r, (T4,)):
            P = [[E(q.cells[0, n, i]).at({q.axes[0]: E(r.axes[0])}) for i in range(3)] for n in range(4)]
            a, b, d = [vsub(P[n], P[0]) for n in (1, 2, 3)]
            c.eq('|det|/6', r.cells[0], absv(dot(a, cross(b, d))) / 6)
    # bounding spheres: candidates are equidistant from what they are built from
    for fn, n in (('_circumsphere_of_segments', 2), ('_circumsphere_of_triangles', 3), ('_circumsphere_of_tetrahedrons', 4)):
        with c.scope(fn):
            w = World(); it = w.it; B = Base('simplices')
            try: f = w.func('utils', fn)
            except AnchorMissing: c.undecided('present', 'renamed'); continue
            q = tensor('x', (B, n, 3), lib='torch')
            r = w.run(f, it.newT(q)); c.use(w)
            ce, ra = [it.to_td(x) for x in it.iter_list(it.simp(r))]
            if not shaped(c, 'a centre each', ce, (B, 3)) or not shaped(c, 'a radius each', ra, (B,)): continue
            e = E(ce.axes[0]); at = {q.axes[0]: e}
            P = [[E(q.cells[0, k, i]).at(at) for i in range(3)] for k in range(n)]
            C_ = [E(ce.cells[0, i]) for i in range(3)]
            d = [norm(vsub(C_, p)) for p in P]
            for k in range(1, n): c.eq('centre is equally far from point %d' % k, d[k], d[0], where=src(ce.cells[0, 0]))
            if n == 2:
                for i in range(3): c.eq('centre of a segment is its middle [%d]' % i, C_[i], (P[0][i] + P[1][i]) / 2)
            if n == 3:
                nrm = cross(vsub(P[1], P[0]), vsub(P[2], P[0]))
                c.eq('centre of a triangle lies in its plane', absv(dot(nrm, vsub(C_, P[0]))), E(0), where=src(ce.cells[0, 0]))
            R = E(ra.cells[0]).at({ra.axes[0]: e})
            slack = R / d[0]
            # a constant factor between 1 and 1.001
            v = tm.values(slack.t, 3)
            vals = [z for L_ in v for z in L_]
            const = all(abs(z - vals[0]) < 1e-9 for z in vals)
            c.holds('radius is that distance with a small safety margin', const and 1 - 1e-12 <= vals[0].real <= 1.001, src(ra.cells[0]), 'radius is %s of the distance' % (vals[0].real if const else 'a varying multiple'), unk=E(ra.cells[0]).t.unk)


def outward(c, name, got, A, D, e, where):
    """got . (D - A) < 0 in every concrete interpretation (both node orders)"""
    t = dot([E(x) for x in got], vsub(D, A)).t
    if t.unk: return c.undecided(name, 'imprecise')
    seen = set()
    for seed in range(40):
        ln = tm.CLane(seed, 0.0); x = ln.nv(t, {})[0]
        if x != x or abs(x.imag) > 1e-9: continue
        seen.add(x.real < 0)
    return c.holds(name, seen == {True}, where, 'inner product with the vector to the fourth node is not always negative', unk=not seen)
