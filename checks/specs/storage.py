"""C09: saved objects come back complete."""
from ..lib import *
from engine.vals import *
from engine.extern import copy_value
from .formulas import pc_term
from .diffract import structure_factor_model
from .caller import Snapshot
from ..lib import expand
import math


class Disk:
    """files by name: what a save writes and a load reads"""
    def __init__(self, w):
        self.w, self.it = w, w.it; self.files = {}; self.wrote = []; self.odd = []
        x = self.it.exts
        for m in ('dill', 'pickle'):
            x[m + '.dump'] = self.dump; x[m + '.load'] = self.load
            x[m + '.dumps'] = self.dumps; x[m + '.loads'] = self.loads
        x['file.*'] = self.method; self.blobs = {}
        x['meshio.write_points_cells'] = x['meshio._helpers.write_points_cells'] = self.write_mesh
        x['meshio.write'] = self.write
        x['meshio.Mesh.write'] = self.write
        x['meshio.read'] = self.read_mesh
        for m in ('os.replace', 'os.rename', 'shutil.move'): x[m] = self.move

    def handle(self, f):
        f = self.it.simp(f)
        if isinstance(f, Opq) and f.tag == 'file' and isinstance(f.info, tuple) and f.info[0] == 'open':
            a = [self.it.simp(z) for z in f.info[1]]
            p = a[0].info if isinstance(a[0], Opq) and a[0].tag == 'path' else a[0]
            if isinstance(p, str): return p, a[1] if len(a) > 1 else None
        self.odd.append('file handle %r' % (f,))
        return None, None

    def dump(self, it, args, kw):
        p, mode = self.handle(args[1] if len(args) > 1 else kw.get('file'))
        if p is not None: self.put(p, self.freeze(args[0]), mode)
        return None

    def dumps(self, it, args, kw):
        o = Opq(tm.uf('blob', tm.num(len(self.blobs))), 'opaque'); self.blobs[o.t.id] = self.freeze(args[0])
        return o

    def method(self, it, args, kw):
        f, name = args[0], args[1]; v = it.simp(args[2]) if len(args) > 2 else None
        if name == 'write' and isinstance(v, Opq) and v.t.id in self.blobs:
            p, mode = self.handle(f)
            if p is not None: self.put(p, self.blobs[v.t.id], mode)
            return None
        if name in ('read', 'readall') and v is None:
            p, mode = self.handle(f)
            if p in self.files:
                o = Opq(tm.uf('blob', tm.num(len(self.blobs))), 'opaque'); self.blobs[o.t.id] = self.files[p]
                return o
        if name in ('close', 'flush', 'fileno', '__exit__'): return None
        if name == '__enter__': return f
        self.odd.append('method %s of a file' % name)
        return it.unk('method %s of a file' % name)

    def loads(self, it, args, kw):
        v = it.simp(args[0])
        if isinstance(v, Opq) and v.t.id in self.blobs: return self.thaw(self.blobs[v.t.id])
        self.odd.append('bytes of unknown origin')
        return it.unk('bytes of unknown origin')

    def put(self, p, v, mode):
        self.wrote.append((p, mode, self.it.loc, tuple(self.it.pc))); self.files[p] = v

    def state(self, o, name):
        """a method of the class itself"""
        it = self.it
        try: f = it.getattr(o, name)
        except Exception: return None
        return f if isinstance(f, BoundM) else None

    def freeze(self, v, memo=None):
        it = self.it; v = it.simp(v)
        if isinstance(v, Obj):
            g = self.state(v, '__getstate__')
            if g is not None: return ('%state', v.cls, copy_value(it, it.run(g)))
            if any(self.state(v, n) is not None for n in ('__reduce__', '__reduce_ex__')): self.odd.append('__reduce__')
        return copy_value(it, v)

    def load(self, it, args, kw):
        p, mode = self.handle(args[0])
        if p not in self.files:
            self.odd.append('load of %r' % (p,)); return it.unk('file that was not written')
        return self.thaw(self.files[p])

    def thaw(self, v):
        it = self.it
        if isinstance(v, tuple) and v and v[0] == '%state':
            o = it.mkO(v[1]); s = self.state(o, '__setstate__')
            if s is not None: it.run(s, copy_value(it, v[2]))
            else:
                st = it.simp(v[2])
                it.heap[o.oid] = dict(it.heap[copy_value(it, st).oid])
            return o
        return copy_value(it, v)

    def name(self, p):
        p = self.it.simp(p)
        if isinstance(p, Opq) and p.tag == 'path': return p.info
        if isinstance(p, str): return p
        self.odd.append('file name %r' % (p,)); return None

    def write_mesh(self, it, args, kw):
        names = ('filename', 'points', 'cells', 'point_data', 'cell_data', 'field_data')
        d = {**dict(zip(names, args)), **kw}
        p = self.name(d['filename'])
        o = it.run(Ext('meshio.Mesh'), d['points'], d['cells'], **{k: d[k] for k in ('point_data', 'cell_data') if d.get(k) is not None})
        if p is not None: self.put(p, copy_value(it, o), 'w')
        return None

    def write(self, it, args, kw):
        p = self.name(args[0])
        if p is not None: self.put(p, copy_value(it, args[1]), 'w')
        return None

    def read_mesh(self, it, args, kw):
        p = self.name(args[0])
        if p not in self.files:
            self.odd.append('mesh file %r' % (p,)); return it.unk('mesh file that was not written')
        return copy_value(it, self.files[p])

    def move(self, it, args, kw):
        a, b = self.name(args[0]), self.name(args[1])
        if a in self.files:
            self.files[b] = self.files.pop(a)
            self.wrote = [(b if x[0] == a else x[0],) + x[1:] for x in self.wrote]
        else: self.odd.append('move of %r' % (a,))
        return None


PATHS = ('some.dir/file', 'file{e}', 'run.3/scan.v1.2', 'x{e}/y', 'some.dir/file.dat', 'data{e}.old', 'some.dir/file{e}', 'scan.v1.2{e}')


def wanted(path, e): return path if path.endswith(e) else path + e


def makers():
    def beam(w): return w.beam()
    def beam_moved(w):
        b = w.beam(); w.meth(b, 'set_beam_vertices', w.t('bw', Base('new_vertices'), 3)); return b
    def inverse(w): return w.meth(w.motion(), 'inverse')
    def detector(w): return w.detector()
    def detector2(w): return w.detector(n_pixels=(5, 9), gaussian_sigma=w.s('gsig', pos=True), kernel_threshold=w.s('kt', pos=True), use_lorentz=False, use_structure_factor=False)
    def rendered(w):
        d = w.detector(gaussian_sigma=w.s('gsig', pos=True))
        from .detect import peaks_dict
        w.meth(d, 'render', peaks_dict(w, w.beam(), w.motion(), w.mesh()), 2, method='micro', verbose=False)
        return d
    def mesh(w):
        m = w.mesh()
        w.meth(m, 'update', w.motion(), w.s('time')); w.meth(m, 'translate', w.t('shift', 3))
        return m
    def pc(per, n, move):
        def f(w):
            structure_factor_model(w, [])
            p = w.polycrystal(per, n)
            if move: w.meth(p, 'transform', w.motion(), w.s('time'))
            return p
        return f
    return (('Beam', 'beam', '.beam', (('new', beam), ('after set_beam_vertices', beam_moved))),
            ('RigidBodyMotion', 'motion', '.motion', (('new', lambda w: w.motion()), ('inverse', inverse))),
            ('Detector', 'detector', '.det', (('new', detector), ('given numbers of pixels', detector2), ('after rendering', rendered))),
            ('Polycrystal', 'polycrystal', '.pc', (('moved, two phases', pc(True, 2, True)), ('new, two phases', pc(True, 2, False)), ('moved, common orientation, one phase', pc(False, 1, True)))),
            ('TetraMesh', 'mesh', '.xdmf', (('new', lambda w: w.mesh()), ('moved', mesh))))


@check('C09')
def c09(c):
    for cls, mod, e, objs in makers():
        for oi, (tag, mk) in enumerate(objs):
            for path in (PATHS if oi == 0 or c.thorough else PATHS[:2]):
                path = path.format(e=e)
                with c.scope('%s (%s) saved as %s' % (cls, tag, path)):
                    w = World(); it = w.it; o = mk(w); disk = Disk(w)
                    s = Snapshot(w, **{cls: o})
                    e0 = len(it.events); pc0 = len(it.pc)
                    w.meth(o, 'save', path, **({'save_mesh_as_xdmf': False} if cls == 'Polycrystal' else {})); c.use(w)
                    raised(c, 'is saved', it, e0)
                    s.audit(c, 'the object is as before')
                    io = [x for x in it.events[e0:] if x.kind == 'io']
                    data = disk.wrote
                    want = wanted(path, e)
                    odd = disk.odd or io
                    c.holds('one file is written', len(data) == 1, data[1][2] if len(data) > 1 else '', 'files written: %s' % [x[0] for x in data], unk=bool(odd) and len(data) != 1)
                    if data:
                        c.holds('it has the name asked for and the extension once', want in disk.files, data[0][2], 'written as %s instead of %s' % (data[0][0], want), unk=bool(odd))
                        c.holds('a new file', str(data[0][1])[:1] in ('w', 'x'), data[0][2], 'opened with %r' % (data[0][1],), unk=not isinstance(data[0][1], str))
                        c.holds('always', tm.decide(pc_term(data[0][3][pc0:]), tm.TRUE)[0] != tm.VIOLATED, data[0][2], 'only under a condition')
                    opened = [x for x in it.events[e0:] if x.kind == 'open']
                    for x in opened:
                        p = disk.handle(Opq(tm.uf('file'), 'file', ('open', list(x.data[0]) + ([x.data[1]['mode']] if 'mode' in x.data[1] else []))))
                        if p[0] not in disk.files and isinstance(p[1], str) and p[1][:1] in 'wxa': c.holds('no other file is touched', False, x.loc, 'opens %s' % p[0], unk=bool(odd))
                    if want not in disk.files: continue
                    e1 = len(it.events)
                    back = it.simp(w.run(it.getattr(w.cls(mod, cls), 'load'), want)); c.use(w)
                    raised(c, 'is loaded', it, e1)
                    if not isinstance(back, Obj): c.undecided('loaded object', repr(back)); continue
                    c.holds('an object of the class comes back', back.cls is it.simp(o).cls, '', 'an object of another class')
                    n0 = len(c.obl); s.anylib = True
                    if cls == 'TetraMesh': s.skip = ('eradius', 'espherecentroids')       # found again on loading (C30 is not claimed)
                    s.values(c, 'every attribute comes back', cls, back, o, ('o', back.oid))
                    if len(c.obl) == n0: c.holds('every attribute comes back (%d values)' % len(s.path), True)
        for bad in ('file', 'file.dat', 'file%s.old' % e, 'some%s/file' % e, e[1:]) if cls != 'TetraMesh' else ():
            with c.scope('%s loaded from %s' % (cls, bad)):
                w = World(); it = w.it; disk = Disk(w); k = w.cls(mod, cls)
                o = mk(w)
                for x in (bad, bad + e): disk.files[x] = copy_value(it, o)
                e0 = len(it.events)
                ok = False
                try: w.run(it.getattr(k, 'load'), bad)
                except Stop as st: ok = st.kind == 'raise'
                c.use(w)
                sure = [x for x in it.events[e0:] if x.kind == 'raise' and not x.pc]
                c.holds('a file without the extension of the class is rejected', ok or bool(sure), '', 'the file is accepted', unk=any(x.kind == 'raise' for x in it.events[e0:]))
    for path in PATHS[:4] + PATHS[-2:]:
        path = path.format(e='.pc')
        for tag, mk in (makers()[3][3][0], makers()[3][3][2]):
            with c.scope('mesh file of a polycrystal (%s) saved as %s' % (tag, path)):
                w = World(); it = w.it; p = mk(w); disk = Disk(w)
                smp = Snapshot(w, Polycrystal=p)
                w.meth(p, 'save', path); c.use(w)
                smp.audit(c, 'the object is as before')
                want = wanted(path, '.pc'); mw = want[:-3] + '.xdmf'
                c.holds('both files are written', set(disk.files) == {want, mw}, '', 'files written: %s' % sorted(disk.files), unk=bool(disk.odd))
                if mw not in disk.files: continue
                o = it.simp(disk.files[mw]); sm = w.attr(p, 'mesh_sample')
                if not isinstance(o, Obj): c.undecided('mesh file', repr(o)); continue
                a = it.to_td(it.simp(w.attr(o, 'points'))); b = it.to_td(it.simp(w.attr(sm, 'coord')))
                same(c, 'the mesh file holds the sample nodes', a, b)
                cd = it.simp(w.attr(o, 'cells_dict'))
                same(c, 'the mesh file holds the connectivity', it.to_td(it.simp(it.heap[cd.oid]['tetra'])), it.to_td(it.simp(w.attr(sm, 'enod'))))
                data = it.heap[it.simp(w.attr(o, 'cell_data')).oid]
                es = it.to_td(it.simp(w.attr(p, 'strain_sample')))
                for k, (i, j) in dict(xx=(0, 0), yy=(1, 1), zz=(2, 2), xy=(0, 1), xz=(0, 2), yz=(1, 2)).items():
                    hit = [n for n in data if isinstance(n, str) and n.lower().endswith('strain tensor component ' + k)]
                    c.holds('strain %s is stored' % k, len(hit) == 1, '', 'cell data: %s' % sorted(map(str, data)), unk=not data)
                    if len(hit) == 1: per_element(c, it, 'strain %s of the element' % k, data[hit[0]], lambda v, i=i, j=j: E(tm.let({es.axes[0]: v}, es.cells[0, i, j])), w.elements)
                os_ = it.to_td(it.simp(w.attr(p, 'orientation_sample')))
                def euler(i):
                    def f(v):
                        cells = np.array([[tm.let({os_.axes[0]: v}, os_.cells[0, a, b]) for b in range(3)] for a in range(3)], dtype=object)
                        r = it.run(Ext('xfab.tools.u_to_euler'), it.newT(TD((3, 3), (None, None), cells, 'f64', 'numpy')))
                        return E(it.td(it.simp(r)).cells[i]) * 180 / math.pi
                    return f
                for i, k in enumerate(('phi_1', 'Phi', 'phi_2')):
                    hit = [n for n in data if isinstance(n, str) and k in n.split()]
                    if len(hit) == 1: per_element(c, it, 'Euler angle %s of the element' % k, data[hit[0]], euler(i), w.elements)
                    else: c.holds('Euler angle %s is stored' % k, False, '', 'cell data: %s' % sorted(map(str, data)), unk=not data)
                hit = [n for n in data if isinstance(n, str) and 'phase' in n.lower()]
                pm = it.to_td(it.simp(w.attr(p, 'element_phase_map')))
                if len(hit) == 1: per_element(c, it, 'phase of the element', data[hit[0]], lambda v: E(tm.let({pm.axes[0]: v}, pm.cells[0])), w.elements)
                else: c.holds('the phase is stored', False, '', 'cell data: %s' % sorted(map(str, data)), unk=not data)


def per_element(c, it, name, v, want, el):
    """cell data as meshio wants it: one list with one value per element"""
    v = it.simp(v)
    l = it.iter_list(v)
    if l is not None and len(l) == 1 and not isinstance(l[0], Gen): v = it.simp(l[0])
    try: td = it.td(v) if isinstance(v, T) else it.to_td(v, 'numpy')
    except (V.Unsupported, V.Conflict) as ex: return c.undecided(name, str(ex))
    cells = td.cells.reshape(-1)
    ax = [a for a in td.axes if a is not None]
    if len(cells) != 1 or len(ax) != 1: return c.undecided(name, 'shape %s' % (td.dims,))
    c.eq(name, cells[0], want(ax[0]))


def same(c, name, a, b):
    if len(a.dims) != len(b.dims) or not all(same_dim(x, y) for x, y in zip(a.dims, b.dims)) or a.cells.shape != b.cells.shape:
        return c.holds(name, False, loc_of(a), 'shape %s instead of %s' % (a.dims, b.dims), unk=any(x.unk for x in a.cells.flat))
    at = {x: y for x, y in zip(b.axes, a.axes) if x is not None and y is not None}
    for i in np.ndindex(*a.cells.shape): c.eq('%s %s' % (name, list(i)), a.cells[i], tm.let(at, b.cells[i]))


def raised(c, name, it, e0):
    """nothing raises on the way"""
    for x in it.events[e0:]:
        if x.kind == 'raise' and not str(x.data).startswith('handled'):
            v, why = tm.decide(pc_term(x.pc), tm.FALSE)
            c.add(name, v if not any(tm.uninterpreted(t) for t, p in x.pc) or v == tm.PROVED else tm.UNDECIDED, x.loc, 'raises %s' % str(x.data)[:80]); 
            return
    c.holds(name, True)
