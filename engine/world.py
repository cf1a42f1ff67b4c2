"""A generic abstract world: symbolic inputs for the analysed entry points."""
import numpy as np
from . import terms as tm
from .terms import Base, var, atom, iatom, num
from .vals import *
from .interp import Interp, Program, AnchorMissing

import os
REPO = os.environ.get('VERIF_REPO', '/repo')     # (overridden only while developing the checks)
_progs = {}

def program(root=None):
    root = root or REPO
    if root not in _progs: _progs[root] = Program(root)
    return _progs[root]


def tensor(name, dims, dtype='f64', lib='numpy', pos=False, kind='atom'):
    """fresh symbolic tensor: dims are ints (exact) or Spaces (one representative element)."""
    axes, sh, used = [], [], {}
    for d in dims:
        if isinstance(d, tm.Space):
            k = used.get(d, 0); used[d] = k + 1
            axes.append(var(d, k)); sh.append(1)
        else: axes.append(None); sh.append(d)
    vs = [v for v in axes if v is not None]
    cells = np.empty(tuple(sh), dtype=object)
    for i in np.ndindex(*sh):
        suffix = ''.join('_%d' % k for k, d in zip(i, dims) if not isinstance(d, tm.Space))
        cells[i] = (tm.iatom(name + suffix, *vs) if kind == 'iatom' else tm.batom(name + suffix, *vs) if kind == 'batom' else atom(name + suffix, *vs, pos=pos))
    return TD(tuple(dims), axes, cells, dtype, lib)


class E:
    """Operator notation for terms, used to write specifications."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t.t if isinstance(t, (E, Sym)) else t if isinstance(t, tm.Term) else tm.num(t)

    def _b(f, sw=False):
        def g(self, o):
            o = E(o)
            return E(f(o.t, self.t) if sw else f(self.t, o.t))
        return g
    __add__ = _b(tm.add); __radd__ = _b(tm.add, True); __sub__ = _b(tm.sub); __rsub__ = _b(tm.sub, True)
    __mul__ = _b(tm.mul); __rmul__ = _b(tm.mul, True); __truediv__ = _b(tm.div); __rtruediv__ = _b(tm.div, True)
    __pow__ = _b(tm.power); __lt__ = _b(tm.lt); __le__ = _b(tm.le); __gt__ = _b(tm.lt, True); __ge__ = _b(tm.le, True)
    __and__ = _b(tm.and_); __or__ = _b(tm.or_)
    def __invert__(self): return E(tm.not_(self.t))
    def __neg__(self): return E(tm.neg(self.t))
    def eq(self, o): return E(tm.eq(self.t, E(o).t))
    def at(self, binds): return E(tm.let({k: E(v).t for k, v in binds.items()}, self.t))
    def __repr__(self): return tm.show(self.t)


def f_(name, *a): return E(tm.fn(name, *[E(x).t for x in a]))
def sqrt(x): return f_('sqrt', x)
def sin(x): return f_('sin', x)
def cos(x): return f_('cos', x)
def absv(x): return f_('abs', x)
def arctan(x): return f_('arctan', x)
def arccos(x): return f_('arccos', x)
def exp(x): return f_('exp', x)
def ite(c, a, b): return E(tm.ite(E(c).t, E(a).t, E(b).t))
def dot(a, b):
    r = E(a[0]) * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + E(x) * y
    return r
def norm(a): return sqrt(dot(a, a))
def unit(a):
    n = norm(a)
    return [E(x) / n for x in a]
def cross(a, b): return [E(a[1]) * b[2] - E(a[2]) * b[1], E(a[2]) * b[0] - E(a[0]) * b[2], E(a[0]) * b[1] - E(a[1]) * b[0]]
def mv(M, v): return [dot(r, v) for r in M]
def mm(A, B): return [[dot(r, [B[k][j] for k in range(3)]) for j in range(3)] for r in A]
def tr(A): return [[A[j][i] for j in range(3)] for i in range(3)]
def vadd(a, b): return [E(x) + y for x, y in zip(a, b)]
def vsub(a, b): return [E(x) - y for x, y in zip(a, b)]
def scale(c, v): return [E(c) * x for x in v]
def rotation(n, phi):
    """right-handed rotation by phi about unit vector n (Rodrigues)"""
    c, s = cos(phi), sin(phi)
    K = [[E(0), -E(n[2]), E(n[1])], [E(n[2]), E(0), -E(n[0])], [-E(n[1]), E(n[0]), E(0)]]
    return [[(c if i == j else E(0)) + s * K[i][j] + (1 - c) * E(n[i]) * n[j] for j in range(3)] for i in range(3)]
def rigid(X, axis, angle, origin, trans, t):
    """rotation by angle*t about axis through origin followed by translation*t"""
    R = rotation(axis, E(angle) * t)
    return vadd(vadd(mv(R, vsub(X, origin)), origin), scale(t, trans))
def inv3(M):
    """inverse by cofactors"""
    r = [cross(M[1], M[2]), cross(M[2], M[0]), cross(M[0], M[1])]
    det = dot(M[0], r[0])
    return [[r[j][i] / det for j in range(3)] for i in range(3)]
def vec(td, *idx):
    """cells of a 1-d or row of tensor as E list"""
    return [E(x) for x in td.cells[idx].flat] if idx else [E(x) for x in td.cells.flat]


class World:
    """One interpreter with lazily constructed abstract objects of the repository's own classes."""

    def __init__(self, root=REPO):
        self.it = Interp(program(root))
        self.it.exts['xrd_simulator.mesh.TetraMesh._compute_mesh_spheres'] = self._spheres
        self.nodes = Base('nodes'); self.elements = Base('elements')

    # -- plumbing
    def cls(self, mod, name): return self.it.cls('xrd_simulator.' + mod, name)
    def func(self, mod, name): return self.it.get_global('xrd_simulator.' + mod, name)
    def run(self, f, *a, **k): return self.it.run(f, *a, **k)
    def new(self, mod, name, *a, **k): return self.it.run(self.cls(mod, name), *a, **k)
    def meth(self, o, name, *a, **k): return self.it.run(self.it.getattr(o, name), *a, **k)
    def attr(self, o, name): return self.it.getattr(o, name)
    def td(self, v): return self.it.to_td(v)
    def t(self, name, *dims, **kw): return self.it.newT(tensor(name, dims, **kw))
    def s(self, name, pos=False, ty='float'): return Sym(atom(name, pos=pos), ty)
    def npconst(self, a, dtype='f64'): return self.it.newT(const_td(np.asarray(a, dtype=float), dtype, 'numpy'))

    def vec(self, v, lib='numpy'):
        c = np.empty((len(v),), dtype=object)
        for i, x in enumerate(v): c[i] = E(x).t
        return self.it.newT(TD((len(v),), (None,), c, 'f64', lib))

    def mat(self, M, dims, lib='numpy'):
        """3x3 matrix of terms, optionally with one leading symbolic axis"""
        pre = len(dims) - 2
        c = np.empty((1,) * pre + (3, 3), dtype=object)
        for i in range(3):
            for j in range(3): c[(0,) * pre + (i, j)] = E(M[i][j]).t
        return self.it.newT(TD(tuple(dims), [var(d) for d in dims[:pre]] + [None, None], c, 'f64', lib))

    @staticmethod
    def rotmat(name, *ix):
        """arbitrary proper rotation (quaternion form)"""
        a, b, c, d = [E(atom('%s_q%d' % (name, i), *ix)) for i in range(4)]
        n = a * a + b * b + c * c + d * d
        return [[(a * a + b * b - c * c - d * d) / n, 2 * (b * c - a * d) / n, 2 * (b * d + a * c) / n],
                [2 * (b * c + a * d) / n, (a * a - b * b + c * c - d * d) / n, 2 * (c * d - a * b) / n],
                [2 * (b * d - a * c) / n, 2 * (c * d + a * b) / n, (a * a - b * b - c * c + d * d) / n]]

    @staticmethod
    def _spheres(it, args, kw):
        """bounding spheres: uninterpreted (property C30 is not claimed)"""
        el = it.to_td(args[-1] if len(args) > 2 else kw['enod'])
        sp = el.dims[0]
        r = tensor('sphere_radius', (sp,), lib='torch', pos=True)
        c = tensor('sphere_center', (sp, 3), lib='torch')
        return (it.newT(r), it.newT(c))

    # -- objects
    def mesh(self, lib='numpy'):
        coord = self.it.newT(tensor('coord', (self.nodes, 3), lib=lib))
        enod = self.it.newT(tensor('enod', (self.elements, 4), dtype='i64', lib=lib, kind='iatom'))
        self.in_coord, self.in_enod = coord, enod
        c = self.cls('mesh', 'TetraMesh')
        return self.run(self.it.getattr(c, 'generate_mesh_from_vertices'), coord, enod)

    def beam(self, tag='', wavelength=None):
        """valid beam: polarization orthogonal to the propagation direction, otherwise arbitrary"""
        bv = self.t('beam_vertex' + tag, Base('beam_vertices' + tag), 3)
        D = [E(atom('xray_dir%s_%d' % (tag, i))) for i in range(3)]
        Q = [E(atom('pol%s_%d' % (tag, i))) for i in range(3)]
        P_ = vsub(Q, scale(dot(Q, D) / dot(D, D), D))
        d = self.vec(D); p = self.vec(P_)
        self.in_beam = (bv, D, P_)
        return self.new('beam', 'Beam', bv, d, self.s('wavelength' + tag, pos=True) if wavelength is None else wavelength, p)

    def motion(self, tag=''):
        """valid motion: unit axis"""
        N = unit([E(atom('rot_axis%s_%d' % (tag, i))) for i in range(3)])
        ax = self.vec(N)
        self.axis = N; tr = self.t('translation' + tag, 3); og = self.t('origin' + tag, 3)
        return self.new('motion', 'RigidBodyMotion', ax, self.s('rot_angle' + tag, pos=True), tr, og)

    def detector(self, **kw):
        px = self.s('pixel_size_z', pos=True), self.s('pixel_size_y', pos=True)
        c0, a, b = [[E(atom('det%d_%d' % (k, i))) for i in range(3)] for k in range(3)]
        b = vsub(b, scale(dot(a, b) / dot(a, a), a))           # orthogonal sides
        self.corners = [c0, vadd(c0, b), vadd(c0, a)]
        ds = [self.vec(c) for c in self.corners]
        if 'n_pixels' not in kw and 'pixel_size' not in kw: kw['pixel_size'] = px
        return self.new('detector', 'Detector', *ds, **kw)

    def phases(self, n=2, cif=True):
        out = []
        for i in range(n):
            uc = self.it.mkL([self.s('cell%d_%d' % (i, j), pos=True) for j in range(6)])
            args = (uc, 'SG%d' % i) + (('file%d.cif' % i,) if cif else ())
            out.append(self.new('phase', 'Phase', *args))
        return out

    def polycrystal(self, per_element=True, nphases=2, cif=True):
        m = self.mesh(); it = self.it
        ev = (var(self.elements),) if per_element else ()
        dims = ((self.elements,) if per_element else ()) + (3, 3)
        self.U = self.rotmat('U', *ev)
        self.eps = [[E(atom('eps_%d%d' % (min(i, j), max(i, j)), *ev)) for j in range(3)] for i in range(3)]
        U = self.mat(self.U, dims); e = self.mat(self.eps, dims)
        ph = self.phases(nphases, cif)
        self.phase_objs = ph
        if nphases == 1: pm = None; pl = ph[0]
        else:
            pc_ = np.empty((1,), dtype=object); pc_[0] = tm.choice('phase_index', nphases, var(self.elements))
            pm = it.newT(TD((self.elements,), [var(self.elements)], pc_, 'i64', 'numpy')); pl = it.mkL(ph)
        self.in_mesh, self.in_U, self.in_eps, self.in_pm = m, U, e, pm
        return self.new('polycrystal', 'Polycrystal', m, U, e, pl, pm)
