"""C04 (rigid body motion), C05 (transform), C06 (mesh moves)."""
from ..lib import *
import math
pi = math.pi


def mpars(w, tag=''):
    return (w.axis, E(atom('rot_angle' + tag, pos=True)), [E(atom('origin%s_%d' % (tag, i))) for i in range(3)], [E(atom('translation%s_%d' % (tag, i))) for i in range(3)])


def points(w, name, dims, lib='numpy'):
    return w.it.newT(tensor(name, dims, lib=lib))


def times(w, dims, lib='numpy'):
    if dims is None: return Sym(atom('time'), 'float'), lambda *ax: E(atom('time'))
    td = tensor('time', dims, lib=lib)
    return w.it.newT(td), None


def rows_of(td, k):
    """k-th leading-dims iteration: yields (cell index prefix)"""
    return list(np.ndindex(*td.cells.shape[:-1]))


def expect(c, w, name, got, vdims, tdims, f):
    """got has the shape of the input and each point is f(point, its own time)"""
    it = w.it
    g = it.to_td(got)
    ref = tensor('v', vdims)
    if len(g.dims) != len(vdims) or not all(same_dim(a, b) for a, b in zip(g.dims, vdims)):
        return c.add(name + ': shape is kept', tm.UNDECIDED if any(x.unk for x in g.cells.flat) else tm.VIOLATED, src(g.cells.flat[0]), 'shape %s for input %s' % (g.dims, vdims))
    c.add(name + ': shape is kept', tm.PROVED)
    at = {a: E(b) for a, b in zip(ref.axes, g.axes) if a is not None}
    tt = tensor('time', tdims) if tdims is not None else None
    for ix in rows_of(ref, 1):
        X = [E(ref.cells[ix + (i,)]).at(at) for i in range(3)]
        if tt is None: t = E(atom('time'))
        else:
            j = tuple(0 if d == 1 or isinstance(d, tm.Space) else q for q, d in zip(ix, tt.dims))
            t = E(tt.cells[j or (0,) * len(tt.dims)]).at(at)
        want = f(X, t)
        for i in range(3): c.eq('%s%s [%s]' % (name, list(ix) if any(ix) else '', 'xyz'[i]), g.cells[ix + (i,)], want[i])


@check('C04')
def c04(c):
    N = Base('points'); G = Base('groups')
    cases = [('one point', (3,), None), ('points, one time', (N, 3), None), ('points, a time each', (N, 3), (N,)), ('groups of four, a time each', (G, 4, 3), (G,)),
             ('groups of four, one time', (G, 4, 3), None), ('a single row', (1, 3), None), ('a single row with its time', (1, 3), (1,)), ('points, time of shape (1,)', (N, 3), (1,)),
             ('three points, a time each', (3, 3), (3,)), ('one group', (1, 4, 3), (1,)), ('one point, time of shape (1,)', (3,), (1,))]
    if c.thorough: cases += [('two groups of two', (2, 2, 3), (2,)), ('groups of one', (G, 1, 3), (G,)), ('groups of seven', (G, 7, 3), (G,)), ('three groups of three', (3, 3, 3), (3,)), ('four groups of four', (4, 4, 3), (4,)), ('three groups, one time', (3, 3, 3), None)]
    for lib in ('numpy', 'torch'):
        for tag, vd, td in cases:
            with c.scope('moving %s (%s)' % (tag, lib)):
                w = World(); m = w.motion(); axis, ang, org, tra = mpars(w)
                v = points(w, 'v', vd, lib); t = times(w, td, lib)[0]
                r = w.meth(m, '__call__', v, t); c.use(w)
                expect(c, w, 'rotated about the origin and translated', r, vd, td, lambda X, t: rigid(X, axis, ang, org, tra, t))
        for tag, vd, td in cases:
            if len(vd) == 3 or (vd == (3,) and td): continue
            with c.scope('rotate of %s (%s)' % (tag, lib)):
                w = World(); m = w.motion(); axis, ang, org, tra = mpars(w)
                v = points(w, 'v', vd, lib); t = times(w, td, lib)[0]
                if td == (1,) and vd[0] is N: continue
                r = w.meth(m, 'rotate', v, t); c.use(w)
                expect(c, w, 'rotated as free vectors', r, vd, td, lambda X, t: mv(rotation(axis, ang * t), X))
        for tag, vd in (('one point', (3,)), ('points', (N, 3)), ('three points', (3, 3)), ('a single row', (1, 3))):
            with c.scope('translate of %s (%s)' % (tag, lib)):
                w = World(); m = w.motion(); axis, ang, org, tra = mpars(w)
                v = points(w, 'v', vd, lib)
                r = w.meth(m, 'translate', v, Sym(atom('time'), 'float')); c.use(w)
                expect(c, w, 'only translated', r, vd, None, lambda X, t: vadd(X, scale(t, tra)))
    with c.scope('inverse'):
        w = World(); m = w.motion(); axis, ang, org, tra = mpars(w)
        inv = w.meth(m, 'inverse'); c.use(w)
        v = points(w, 'v', (N, 3))
        for how, f in (('__call__', lambda X, t: rigid(X, [-a for a in axis], ang, org, [-x for x in tra], t)), ('rotate', lambda X, t: mv(tr(rotation(axis, ang * t)), X))):
            r = w.meth(inv, how, v, Sym(atom('time'), 'float'))
            expect(c, w, 'inverse turns the other way about the same origin (%s)' % how, r, (N, 3), None, f)
        r = w.meth(m, '__call__', v, Sym(atom('time'), 'float'))
        expect(c, w, 'the original motion is unchanged', r, (N, 3), None, lambda X, t: rigid(X, axis, ang, org, tra, t))
    with c.scope('attributes'):
        w = World(); m = w.motion(); axis, ang, org, tra = mpars(w); c.use(w)
        for nm, want in (('rotation_axis', axis), ('origin', org), ('translation', tra)):
            g = w.it.to_td(w.attr(m, nm))
            for i in range(3): c.eq('%s [%s]' % (nm, 'xyz'[i]), g.cells[i], want[i])
        c.eq('rotation_angle', w.it.as_term(w.attr(m, 'rotation_angle')) if not isinstance(w.attr(m, 'rotation_angle'), T) else w.it.td(w.attr(m, 'rotation_angle')).cells.flat[0], ang)
    with c.scope('default origin'):
        w = World()
        N_ = unit([E(atom('rot_axis_%d' % i)) for i in range(3)])
        m = w.new('motion', 'RigidBodyMotion', w.vec(N_), w.s('rot_angle', pos=True), w.t('translation', 3)); w.axis = N_; c.use(w)
        axis, ang, org, tra = mpars(w)
        r = w.meth(m, '__call__', points(w, 'v', (N, 3)), Sym(atom('time'), 'float'))
        expect(c, w, 'rotates about zero', r, (N, 3), None, lambda X, t: rigid(X, axis, ang, [E(0)] * 3, tra, t))


# ------------------------------------------------------------------ meshes
def mesh_state(w, m):
    """observable geometry of a mesh as tensors"""
    return {n: w.it.to_td(w.it.simp(w.attr(m, n))) for n in ('coord', 'enod', 'enormals', 'ecentroids', 'eradius', 'espherecentroids', 'evolumes', 'centroid', 'efaces')}


def same_tensor(c, name, got, want):
    if len(got.dims) != len(want.dims) or not all(same_dim(a, b) for a, b in zip(got.dims, want.dims)):
        return c.add(name, tm.UNDECIDED if any(x.unk for x in got.cells.flat) else tm.VIOLATED, src(got.cells.flat[0]), 'shape %s, specified %s' % (got.dims, want.dims))
    at = {a: E(b) for a, b in zip(want.axes, got.axes) if a is not None and b is not None}
    ok = True
    for i in np.ndindex(*want.cells.shape):
        ok &= c.eq(name + (str(list(i)) if want.cells.size > 1 else ''), got.cells[i], E(want.cells[i]).at(at))
    return ok


def point_rows(c, name, got, before, f):
    if len(got.dims) != len(before.dims) or not all(same_dim(a, b) for a, b in zip(got.dims, before.dims)):
        return c.add(name, tm.UNDECIDED if any(x.unk for x in got.cells.flat) else tm.VIOLATED, src(got.cells.flat[0]), 'shape %s, specified %s' % (got.dims, before.dims))
    at = {a: E(b) for a, b in zip(before.axes, got.axes) if a is not None and b is not None}
    for ix in np.ndindex(*before.cells.shape[:-1]):
        want = f([E(before.cells[ix + (i,)]).at(at) for i in range(3)])
        for i in range(3): c.eq('%s%s [%s]' % (name, list(ix) if any(ix) else '', 'xyz'[i]), got.cells[ix + (i,)], want[i])


def moved(c, name, a, b, f, fn):
    """state b is state a moved by the point map f, normals mapped by fn"""
    for n in ('coord', 'ecentroids', 'espherecentroids', 'centroid'): point_rows(c, '%s: %s' % (name, n), b[n], a[n], f)
    point_rows(c, '%s: enormals' % name, b['enormals'], a['enormals'], fn)
    for n in ('enod', 'efaces', 'eradius', 'evolumes'): same_tensor(c, '%s: %s unchanged' % (name, n), b[n], a[n])


STEPS = {'update': None, 'rotate': None, 'translate': None}

def has(w, o, n):
    try: w.attr(o, n)
    except Exception: return False
    return True


def apply_step(w, m, kind, tag):
    """moves mesh m; returns (point map, normal map)"""
    if kind == 'update':
        mo = w.motion(tag); axis, ang, org, tra = mpars(w, tag); t = E(atom('time' + tag))
        w.meth(m, 'update', mo, w.s('time' + tag))
        return (lambda X: rigid(X, axis, ang, org, tra, t)), (lambda X: mv(rotation(axis, ang * t), X))
    if kind == 'rotate':
        N = unit([E(atom('turn_axis%s_%d' % (tag, i))) for i in range(3)]); a = E(atom('turn_angle' + tag, pos=True))
        w.meth(m, 'rotate', w.vec(N), w.s('turn_angle' + tag, pos=True))
        R = rotation(N, a)
        return (lambda X: mv(R, X)), (lambda X: mv(R, X))
    t = w.t('shift' + tag, 3, lib='torch' if kind == 'translate (torch)' else 'numpy')
    w.meth(m, 'translate', t)
    return (lambda X: vadd(X, [E(atom('shift%s_%d' % (tag, i))) for i in range(3)])), (lambda X: X)


@check('C06')
def c06(c):
    seqs = [('update',), ('rotate',), ('translate',), ('translate (torch)',), ('update', 'translate'), ('translate', 'update'), ('rotate', 'translate'), ('translate', 'rotate'), ('translate', 'translate'), ('update', 'update'), ('update', 'translate', 'update')]
    if c.thorough:
        k = ('update', 'rotate', 'translate')
        seqs += [(a, b, d) for a in k for b in k for d in k]
    for seq in seqs:
        with c.scope(' then '.join(seq)):
            w = World(); m = w.mesh()
            a = mesh_state(w, m)
            for i, s in enumerate(seq):
                f, g = apply_step(w, m, s, str(i))
                b = mesh_state(w, m)
                moved(c, 'step %d (%s)' % (i + 1, s), a, b, f, g)
                a = b
            c.use(w)


@check('C05')
def c05(c):
    for tag, kw, steps in (('once', {}, 1), ('twice', {}, 2), ('common orientation and strain', dict(per_element=False, nphases=1), 1)) + ((('three times', {}, 3),) if c.thorough else ()):
        with c.scope(tag):
            w = World(); pc = w.polycrystal(**kw); it = w.it
            get = lambda n: it.to_td(it.simp(w.attr(pc, n)))
            mesh = lambda n: mesh_state(w, it.simp(w.attr(pc, n)))
            el = w.elements
            O = get('orientation_lab'); S = get('strain_lab'); L = mesh('mesh_lab')
            fixed = {n: get(n) for n in ('orientation_sample', 'strain_sample', '_eB') if has(w, pc, n)}; sample = mesh('mesh_sample')
            for k in range(steps):
                mo = w.motion(str(k)); axis, ang, org, tra = mpars(w, str(k)); t = E(atom('time%d' % k))
                w.meth(pc, 'transform', mo, w.s('time%d' % k))
                O2 = get('orientation_lab'); S2 = get('strain_lab'); L2 = mesh('mesh_lab')
                R = rotation(axis, ang * t)
                moved(c, 'mesh_lab after transform %d' % (k + 1), L, L2, lambda X: rigid(X, axis, ang, org, tra, t), lambda X: mv(R, X))
                for nm, A, A2, f in (('orientation_lab', O, O2, lambda U: mm(R, U)), ('strain_lab', S, S2, lambda e: mm(mm(R, e), tr(R)))):
                    if A2.ndim != 3 or not same_dim(A2.dims[0], el):
                        c.add('%s shape' % nm, tm.UNDECIDED if any(x.unk for x in A2.cells.flat) else tm.VIOLATED, src(A2.cells.flat[0]), str(A2.dims)); continue
                    at = {A.axes[0]: E(A2.axes[0])} if A.axes[0] is not None else {}
                    want = f([[E(A.cells[0, i, j]).at(at) for j in range(3)] for i in range(3)])
                    for i in range(3):
                        for j in range(3): c.eq('%s after transform %d [%d,%d]' % (nm, k + 1, i, j), A2.cells[0, i, j], want[i][j])
                O, S, L = O2, S2, L2
                for n, v in fixed.items(): same_tensor(c, '%s unchanged by transform %d' % (n.strip('_'), k + 1), get(n), v)
                s2 = mesh('mesh_sample')
                for n in sample: same_tensor(c, 'mesh_sample.%s unchanged by transform %d' % (n, k + 1), s2[n], sample[n])
            c.use(w)
