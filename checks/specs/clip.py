"""C31 (clipping an element with the beam): which half-spaces are intersected, about which point, and when nothing is left."""
from ..lib import *
from engine.vals import *
from ..field import FLane, Inexact
from .drawn import tetra, cross3, dot3
from ..lib import expand
import itertools, math
import numpy as np

BOX = ((0, 1, 3), (0, 2, 6), (0, 4, 5))


def planes_of_box(v):
    """outward unit planes of a box with corners v[4 i + 2 j + k]"""
    out = []
    c = [sum(p[m] for p in v) / 8 for m in range(3)]
    for axis in range(3):
        for side in (0, 1):
            ids = [n for n in range(8) if (n >> (2 - axis)) & 1 == side]
            a, b, d = (v[ids[0]], v[ids[1]], v[ids[2]])
            n = cross3([b[m] - a[m] for m in range(3)], [d[m] - a[m] for m in range(3)])
            l = math.sqrt(dot3(n, n)); n = [x / l for x in n]
            if dot3(n, [a[m] - c[m] for m in range(3)]) < 0: n = [-x for x in n]
            out.append(n + [-dot3(n, a)])
    return out


class Clip:
    """one interpretation of Beam._intersect for any element: the values handed to the hull, intersection and programming routines"""
    def __init__(self, c):
        self.w = w = World(); self.it = it = w.it
        self.hulls = {}; self.sects = []; self.lps = []; self.sect_of = {}
        it.exts['scipy.spatial.ConvexHull'] = self.hull
        it.exts['scipy.spatial.HalfspaceIntersection'] = self.sect
        it.exts['scipy.optimize.linprog'] = self.lp
        for q in ('numpy.unique', 'torch.unique'):
            it.exts[q] = self.unique(it.exts.get(q), q.split('.')[0])
        bv = w.t('bv', 8, 3); D = w.t('xdir', 3); P_ = w.vec([E(0), E(0), E(1)])
        it.exts['torch.allclose'] = lambda it, a, k: True
        self.beam = w.new('beam', 'Beam', bv, D, w.s('wavelength', pos=True), P_)
        self.n0 = len(it.events); self.start = len(self.sects), len(self.lps)
        self.tet = w.t('tet', 4, 3, lib='torch')
        self.result = it.simp(w.meth(self.beam, '_intersect', self.tet)); c.use(w)
        self.loc = 'xrd_simulator.beam:_intersect'

    def unique(self, old, lib):
        def f(it, args, kw):
            x = it.simp(args[0] if args else kw['ar'])
            ax = kw.get('axis', kw.get('dim', None))
            td = it.to_td(x)
            if td.ndim == 2 and ax == 0 and all(isinstance(d, int) for d in td.dims) and set(kw) <= {'axis', 'dim', 'ar', 'input'} and len(args) <= 1:
                return it.newT(td.repl(root=None))          # (the same set of rows; repeated planes change nothing)
            raise Unsupported('unique')
        return f

    def hull(self, it, args, kw):
        x = it.simp(args[0] if args else kw['points']); td = it.to_td(x)
        rows = td.dims[0]
        if td.ndim != 2 or td.dims[1] != 3: raise Unsupported('hull of %s' % (td.dims,))
        if rows in (4, 8):
            vs = list(td.flat()); nf = 4 if rows == 4 else 6
            def mk(nm, shape, dt='f64'):
                cells = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape): cells[i] = atom('%s%s' % (nm, ''.join('_%d' % j for j in i)), *vs)
                return it.newT(TD(shape, (None,) * len(shape), cells, dt, 'numpy'))
            eq = mk('facet%d' % rows, (nf, 4))
            sim = np.array([[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]) if rows == 4 else np.array([[0, 1, 3]] * 6)
            o = it.mkO('scipy.spatial.ConvexHull', {'points': it.newT(td.repl(lib='numpy', root=None)), 'equations': eq, 'vertices': it.newT(const_td(np.arange(rows), 'i64', 'numpy')),
                'simplices': it.newT(const_td(sim, 'i64', 'numpy')), 'volume': Sym(atom('hull_volume', *vs), 'float'), 'area': Sym(atom('hull_area', *vs), 'float'), 'npoints': rows, 'ndim': 3})
        else:
            o = it.mkO('scipy.spatial.ConvexHull', {'points': x, 'volume': Sym(atom('hull_volume', td.cells.flat[0]), 'float')})
        self.hulls[o.oid] = (td, it.loc)
        return o

    def sect(self, it, args, kw):
        k = {**dict(zip(('halfspaces', 'interior_point'), args)), **kw}
        n = len(self.sects)
        B = Base('corners%d' % n)
        t = tensor('corner%d' % n, (B, 3))
        o = it.mkO('scipy.spatial.HalfspaceIntersection', {'intersections': it.newT(t), 'halfspaces': k['halfspaces'], 'interior_point': k['interior_point']})
        self.sects.append(dict(H=k['halfspaces'], P=k['interior_point'], pc=list(it.pc), loc=it.loc, name='corner%d_' % n))
        return o

    def lp(self, it, args, kw):
        k = {**dict(zip(('c', 'A_ub', 'b_ub', 'A_eq', 'b_eq', 'bounds'), args)), **kw}
        n = len(self.lps)
        td = lambda q: it.to_td(it.simp(k[q])) if k.get(q) is not None else None
        cc = td('c'); A = td('A_ub')
        if td('A_eq') is not None or A is None or cc.ndim != 1 or not isinstance(cc.dims[0], int) or not all(isinstance(d, int) for d in A.dims): raise Unsupported('linear program')
        bounds = self.bounds(it, it.simp(k.get('bounds', (0, None))), cc.dims[0])
        opt = it.simp(k.get('options', None))
        opt = {n: it.simp(x) for n, x in it.heap[opt.oid].items()} if isinstance(opt, Dct) else {} if opt is None else None
        self.lps.append(dict(c=cc, A=A, b=td('b_ub'), bounds=bounds, pc=list(it.pc), loc=it.loc, options=opt))
        def vec(nm, m):
            cells = np.empty((m,), dtype=object)
            for i in range(m): cells[i] = atom('lp%d_%s_%d' % (n, nm, i))
            return it.newT(TD((m,), (None,), cells, 'f64', 'numpy'))
        return it.mkO('scipy.optimize.OptimizeResult', {'success': Sym(tm.batom('lp%d_ok' % n), 'bool'), 'status': Sym(atom('lp%d_status' % n), 'int'), 'x': vec('x', cc.dims[0]), 'slack': vec('s', A.dims[0]), 'fun': Sym(atom('lp%d_fun' % n), 'float'), 'message': ''})

    def bounds(self, it, b, m):
        def num(x):
            x = it.simp(x)
            if x is None: return None
            if isinstance(x, (int, float)): return None if math.isinf(x) else float(x)
            raise Unsupported('bounds')
        l = [it.simp(x) for x in it.iter_list(b)]
        if all(x is None or isinstance(x, (int, float)) for x in l) and len(l) == 2: return [(num(l[0]), num(l[1]))] * m
        out = [tuple(num(y) for y in it.iter_list(x)) for x in l]
        if len(out) == 1: out = out * m
        if len(out) != m: raise Unsupported('bounds')
        return out


class CLIPLane(FLane):
    """an element, a beam and one of the optimal points a linear program may return"""
    def __init__(self, K, tet, box, pick):
        tab = {}
        for i in range(4):
            for j in range(3): tab['tet_%d_%d' % (i, j)] = lambda i=i, j=j: tet[i][j]
        for i in range(8):
            for j in range(3): tab['bv_%d_%d' % (i, j)] = lambda i=i, j=j: box[i][j]
        for j in range(3): tab['xdir_%d' % j] = lambda j=j: (1., 0., 0.)[j]
        tab['wavelength'] = lambda: 0.3
        def num_(f): f.numbers = True; return f
        memo = {}
        def geo(*v):
            if v not in memo:
                p = [v[3 * i:3 * i + 3] for i in range(len(v) // 3)]
                memo[v] = tetra(p)[0] if len(p) == 4 else planes_of_box(p)
            return memo[v]
        for n, m in ((4, 4), (8, 6)):
            for i in range(m):
                for j in range(4): tab['facet%d_%d_%d' % (n, i, j)] = num_(lambda *v, i=i, j=j: geo(*v)[i][j])
        FLane.__init__(self, K.it, table=tab)
        self.K = K; self.pick = pick; self.sol = {}
        for n, l in enumerate(K.lps):
            tab['lp%d_ok' % n] = lambda n=n: self.solve(n) is not None
            tab['lp%d_status' % n] = lambda n=n: 0 if self.solve(n) is not None else 2
            for i in range(l['c'].dims[0]): tab['lp%d_x_%d' % (n, i)] = lambda n=n, i=i: self.solution(n)[0][i]
            for i in range(l['A'].dims[0]): tab['lp%d_s_%d' % (n, i)] = lambda n=n, i=i: self.solution(n)[1][i]
            tab['lp%d_fun' % n] = lambda n=n: self.solution(n)[2]

    def e_fn(self, t, env):
        if t.args[0] == 'roundd': return (complex(round(self.nv(t.args[1], env)[0].real, int(self.nv(t.args[2], env)[0].real))),)
        return FLane.e_fn(self, t, env)

    def numbers(self, td): return np.array([self.nv(E(x).t, {})[0].real for x in td.cells.flat]).reshape(td.cells.shape)

    def solution(self, n):
        r = self.solve(n)
        if r is None: raise Inexact('result of a failed program')
        return r

    def solve(self, n):
        """an optimal point of the n-th linear program: a corner of the set of optimal points, or a point within it"""
        if n in self.sol: return self.sol[n]
        from scipy.optimize import linprog
        l = self.K.lps[n]
        c, A, b = (self.numbers(l[q]) for q in ('c', 'A', 'b'))
        r = linprog(c, A_ub=A, b_ub=b, bounds=l['bounds'], method='highs')
        if r.status not in (0, 2): raise Inexact('program without an answer')
        if r.status == 2: out = None
        else:
            x = r.x
            if self.pick is not None:
                d = np.random.default_rng(self.pick).normal(size=len(c))
                q = linprog(d, A_ub=np.vstack([A, c[None]]), b_ub=np.append(b, r.fun + 1e-12), bounds=l['bounds'], method='highs')
                if q.status == 0: x = q.x
            s = b - A @ x; s[np.abs(s) < 1e-15] = 0.0
            out = (x, s, r.fun)
        self.sol[n] = out
        return out

    def reached(self, pc): return all(self.bv(t, {}) == p for t, p in pc)

    def leaf(self, v):
        v = self.K.it.simp(v)
        while isinstance(v, Phi): v = self.K.it.simp(v.a if self.bv(v.c, {}) else v.b)
        return v


def room(planes):
    """radius of the largest ball between planes"""
    from scipy.optimize import linprog
    H = np.array(planes); A = np.hstack([H[:, :3], np.linalg.norm(H[:, :3], axis=1, keepdims=True)])
    r = linprog([0, 0, 0, -1], A_ub=A, b_ub=-H[:, 3], bounds=[(None, None)] * 3 + [(0, 50.)], method='highs')
    return r.x[3] if r.status == 0 else -1.0


def box(lo, hi, turn=0.0, at=(0, 0, 0)):
    out = []
    for i, j, k in itertools.product((0, 1), repeat=3):
        x, y, z = ((lo, hi)[s][m] for m, s in enumerate((i, j, k)))
        c, s = math.cos(turn), math.sin(turn)
        y, z = c * y - s * z, s * y + c * z
        c, s = math.cos(turn / 3), math.sin(turn / 3)
        x, y = c * x - s * y, s * x + c * y
        out.append((x + at[0], y + at[1], z + at[2]))
    return out


STRAIGHT = box((-50., -1., -1.), (50., 1., 1.))
OBLIQUE = box((-50., -1., -2.), (50., 1., 2.), 0.4, (0.2, -0.1, 0.3))
S = 'a straight beam', STRAIGHT
O = 'an oblique beam', OBLIQUE
SCENES = [
    ('element inside the beam', S, ((.1, .2, .3), (.7, .1, .2), (.2, .8, .3), (.3, .4, .9))),
    ('element inside the beam', O, ((.1, .2, .3), (.7, .1, .2), (.2, .8, .3), (.3, .4, .9))),
    ('element reaching out of the beam, its centre inside', S, ((.1, .2, .3), (.7, .1, .2), (.2, 2.4, .3), (.3, .4, .9))),
    ('element reaching out of the beam, its centre inside', O, ((.1, .2, -3.3), (.7, .1, .2), (.2, 2.4, .3), (.3, .4, .9))),
    ('only the first corner inside', S, ((.1, .2, .3), (.7, 3.1, .2), (.2, 2.4, 3.3), (-.3, 3.4, .9))),
    ('only the second corner inside', O, ((.7, 3.1, .2), (.1, .2, .3), (.2, 2.4, 5.3), (-.3, 3.4, .9))),
    ('only the third corner inside', S, ((.7, 3.1, .2), (.2, 2.4, 3.3), (.1, .2, .3), (-.3, 3.4, .9))),
    ('only the last corner inside', S, ((.7, 3.1, .2), (.2, 2.4, 3.3), (-.3, 3.4, .9), (.1, .2, .3))),
    ('two corners inside', S, ((.7, -9.1, .2), (.1, .2, .3), (.2, .4, .5), (-.3, 3.4, 7.9))),
    ('a corner barely outside, the centre far away', S, ((.1, 1.005, .3), (.7, 4.1, .2), (.2, 4.4, 3.3), (-.3, 3.4, .9))),
    ('an edge crosses the beam', S, ((.1, -3.0, -.8), (.4, 2.0, -.5), (.2, 4.0, -9.3), (-.6, 3.4, -7.9))),
    ('an edge crosses the beam', O, ((.1, -4.0, -.8), (.4, 3.0, -.5), (.2, 4.0, -9.3), (-.6, 3.4, -7.9))),
    ('the beam runs through the element', S, ((.1, -9.0, -3.8), (.4, 8.0, -4.5), (.2, 0.3, 19.3), (-9.6, 0.4, 14.9))),
    ('element larger than the beam', O, ((-190., -180., -200.), (390., 10., 3.), (5., 420., -7.), (11., -9., 500.))),
    ('whole numbers', S, ((-7., 6., -4.), (-5., 5., -9.), (1., -1., 3.), (-2., 3., 6.))),
    ('whole numbers', S, ((3., -1., 0.), (2., -9., -2.), (2., 3., 9.), (4., -8., -3.))),
    ('whole numbers', S, ((0., 1., 1.), (1., -5., 3.), (0., -1., 0.), (-2., 1., 3.))),
    ('corners on a face of the beam', S, ((.1, 1., .3), (.7, 1., .2), (.2, -1., .3), (.3, .4, 1.9))),
    ('element on one side of the beam', S, ((.1, 2.2, .3), (.7, 3.1, .2), (.2, 2.8, .3), (.3, 2.4, .9))),
    ('element beyond the end of the beam', S, ((51.1, .2, .3), (53.7, .1, .2), (52.2, .8, .3), (52.3, .4, .9))),
    ('element on one side of the beam', O, ((.1, .2, -5.3), (.7, .1, -3.2), (.2, .8, -6.3), (.3, .4, -3.9))),
    ('element past an edge of the beam', S, ((.1, 1.9, .9), (.7, .9, 1.9), (.2, 1.8, 1.8), (1.3, 1.4, 1.5))),
    ('element resting on a face of the beam', S, ((.1, 1., .3), (.7, 1., .2), (.2, 1., .8), (.3, 2.4, .9))),
]


@check('C31')
def c31(c):
    with c.scope('clipping'):
        K = Clip(c); it = K.it
        for l in K.lps:
            m = (l['options'] or {}).get('maxiter')
            if m is None or isinstance(m, (int, float)): c.holds('the search for a common interior is not given up after a few steps', m is None or m >= 100, l['loc'], 'given up after %s steps' % m)
        for name, (bname, bx), tet in SCENES:
            for pick in (None, 1, 2) + ((3, 4, 5, 6) if c.thorough else ()):
                tag = '%s, %s%s' % (name, bname, '' if pick is None else ', another point of the feasible region')
                if pick is not None and not K.lps: continue
                # (every element at several orders of its corners)
                for o in ((0, 1, 2, 3), (3, 2, 1, 0)) + (((1, 3, 0, 2), (2, 0, 3, 1)) if c.thorough else ()):
                    one(c, K, tag, bx, [tet[i] for i in o], pick)


def one(c, K, tag, bx, tet, pick):
    L = CLIPLane(K, tet, bx, pick); it = K.it
    element, beam = tetra(tet)[0], planes_of_box(bx)
    r = room(element + beam)
    empty = r < 1e-9
    try:
        for s in K.sects[K.start[0]:]:
            if not L.reached(s['pc']): continue
            P_ = L.numbers(it.to_td(L.leaf(s['P']))).ravel(); H = L.numbers(it.to_td(L.leaf(s['H'])))
            m = float((H[:, :3] @ P_ + H[:, 3]).max())
            c.holds('%s: the half-spaces are intersected about a point inside all of them' % tag, m < -1e-9, s['loc'], 'point %s lies %.2g outside' % (np.round(P_, 4).tolist(), m))
        v = L.leaf(K.result)
        if v is None:
            c.holds('%s: what both have in common is kept' % tag, empty, K.loc, 'none for an element that has a ball of radius %.3g in common with the beam' % r)
            return
        if not isinstance(v, Obj) or v.oid not in K.hulls: return c.undecided('%s: result' % tag, 'result %r' % (v,), K.loc)
        td, loc = K.hulls[v.oid]
        if empty: return c.holds('%s: nothing in common gives none' % tag, False, loc, 'a hull is returned for an element that has no volume in common with the beam')
        if all(isinstance(d, int) for d in td.dims):
            X = L.numbers(td)
            same = len(X) == 4 and all(min(np.abs(X - np.array(p)).max(axis=1)) < 1e-9 for p in tet)
            ins = all(dot3(h[:3], p) + h[3] <= 1e-9 for h in beam for p in tet)
            c.holds('%s: the hull is what both have in common' % tag, same and ins, loc, 'the hull of %s' % ('the whole element' if same else 'points %s' % np.round(X, 3).tolist()))
            return
        s = next((s for s in K.sects if all(E(x).t.op == 'atom' and str(E(x).t.args[0]).startswith(s['name']) for x in td.cells.flat)), None)
        if s is None: return c.undecided('%s: corners of the hull' % tag, 'hull of %s' % td, loc)
        H = L.numbers(it.to_td(L.leaf(s['H']))); H = H / np.linalg.norm(H[:, :3], axis=1, keepdims=True)
        tol = 2e-5 * (1 + max(abs(x) for p in list(tet) + list(bx) for x in p))
        cut = lambda P_: bool((np.abs(H - np.array(P_)).max(axis=1) < tol).any())
        for what, ps in (('element', element), ('beam', beam)):
            miss = [p for p in ps if not cut(p)]
            c.holds('%s: bounded by every face of the %s' % (tag, what), not miss, s['loc'], 'the face %s is left out' % (np.round(miss[:1], 4).tolist(),))
        more = [h for h in H if min(np.abs(np.array(element + beam) - h).max(axis=1)) > tol]
        c.holds('%s: bounded by these faces only' % tag, not more, s['loc'], 'a half-space %s of neither' % (np.round(more[:1], 4).tolist(),))
    except Inexact as x:
        c.undecided(tag, 'not exact: %s' % x, K.loc)


@check('C18')
def c18_clip(c):
    with c.scope('clipping on a busy machine'):
        K = Clip(c)
        for l in K.lps:
            if l['options'] is None: c.undecided('options of the linear program', 'not a dictionary', l['loc']); continue
            t = l['options'].get('time_limit')
            if t is not None and not isinstance(t, (int, float)): c.undecided('time limit', repr(t), l['loc']); continue
            c.holds('whether a common interior is found does not depend on the time the search takes', t is None or t >= 60, l['loc'], 'the search is given up after %s seconds' % t)
        c.holds('the interpretation reaches the search', bool(K.lps), K.loc, '', unk=True)
