"""Models of everything outside the analysed package: builtins, torch, numpy, scipy, meshio, ..."""
import math
import numpy as np
from . import terms as tm, vals as V
from .terms import Space
from .vals import *
from .ext_index import *
from .ext_index import t_getitem, t_setitem, is_scatter_key, norm_key
from .ext_fns import FN, DT, dtv, dtype_name, cast, make_array, liftarr, flag, arg, INTS, view

TORCH_DT = dict(DT, float='f32', int='i32')
CREATE = {'tensor', 'array', 'as_tensor', 'asarray', 'ascontiguousarray', 'from_numpy', 'scalar_tensor', 'asanyarray'}
CONST = {'pi': math.pi, 'e': math.e}
RNG_TORCH = {'rand', 'randn', 'randint', 'randperm', 'normal', 'bernoulli', 'multinomial', 'poisson', 'rand_like', 'randn_like', 'randint_like', 'manual_seed', 'seed', 'random.manual_seed', 'Generator', 'random.fork_rng', 'random.seed'}
IO = {'os.remove', 'os.unlink', 'os.makedirs', 'os.mkdir', 'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.copy', 'os.system', 'subprocess.run', 'subprocess.Popen'}
CLOCK = {'time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.time_ns', 'datetime.datetime.now', 'os.getpid', 'uuid.uuid4', 'os.urandom', 'os.getenv', 'os.environ.get', 'id'}
# deterministic external functions: value numbered by their arguments
PURE = ('xfab.', 'scipy.', 'psutil.', 'os.path.', 'math.', 're.', 'textwrap.', 'string.', 'numbers.', 'json.', 'skimage.', 'pygalmesh.', 'importlib.', 'CifFile.', 'sys.', 'logging.', 'platform.', 'pathlib.', 'meshpy.', 'functools.', 'itertools.', 'operator.')
SIDE = ('matplotlib.', 'pandas.', 'tqdm.')


# ------------------------------------------------------------------ opaque values
def opq_to_td(it, v):
    if v.tag == 'hull': return None
    if v.tag == 'num': return V.scalar(v.t)
    return None

def opq_item(it, v, i):
    if v.tag == 'minmax': return v.info[i]
    if v.tag == '?': return Opq(tm._mk('u', ('item', v.t, tm.num(i))), '?')
    return Opq(tm.uf('item', v.t, tm.num(i)), v.tag if v.tag in ('str', 'cif') else 'opaque')

def opq_iter(it, v):
    if v.tag == 'minmax': return list(v.info)
    if v.tag == '?': return None
    sp = tm.Opaque('iter:%d' % v.t.id)
    lv = tm.var(sp, 0)
    return [SymIter(lv, Opq(tm.uf('elem', v.t, lv), v.tag), 'opaque')]

def opq_attr(it, v, name):
    if v.tag == 'minmax':
        if name == 'values': return v.info[0]
        if name == 'indices': return v.info[1]
    if v.tag == 'dtype':
        if name == 'itemsize': return {'f64': 8, 'f32': 4, 'i64': 8, 'i32': 4, 'b': 1, 'f16': 2}.get(v.info, Opq(tm.uf('itemsize', v.t), 'num'))
        if name == 'is_floating_point': return BMeth(v, name)
    if v.tag == 'hull': return hull_attr(it, v, name)
    if v.tag == 'str': return BMeth(v, name)
    if v.tag == 'path': return path_attr(it, v, name)
    if v.tag == 'finfo': return Sym(tm.atom('finfo.' + name, v.t, pos=True), 'float')
    return Opq(tm._mk('u', ('.' + name, v.t)), v.tag if v.tag in ('?', 'cif', 'file', 'rng') else 'opaque', ('attr', v, name))

def opq_getitem(it, v, k):
    if v.tag == 'minmax' and isinstance(k, int): return v.info[k]
    ks = k if isinstance(k, tuple) else (k,)
    ts = []
    for x in ks:
        if isinstance(x, slice): ts.append(tm.uf('slice', *[it.as_term(y) for y in (x.start, x.stop, x.step)]))
        else: ts.append(it.as_term(x))
    return Opq(tm._mk('u', ('getitem', v.t) + tuple(ts)), v.tag if v.tag in ('?', 'cif', 'str') else 'opaque')

def opq_call(it, f, args, kw):
    ts = [it.as_term(a) for a in args] + [it.as_term(kw[k]) for k in sorted(kw)]
    if f.tag == 'rng':
        it.event('rng', f.info[2] if f.info else 'call')
        return rng_value(it, f.info[2] if f.info else 'call', args, kw)
    if f.tag == 'pathmeth': return path_call(it, *f.info, args, kw)
    if f.tag == 'callback':
        it.event('callback', dict(f=f, args=args, kw=kw))
        if f.info is not None and callable(f.info): return f.info(it, args, kw)
        return Opq(tm.uf('call', f.t, *ts), 'opaque')
    if f.tag == 'opaque' or f.tag == 'cif' or f.tag == 'file':
        if f.tag == 'file':
            it.event('file', (f.info[2] if f.info else '', args))
            if f.info and f.info[0] == 'attr' and 'file.*' in it.exts: return it.exts['file.*'](it, [f.info[1], f.info[2]] + list(args), kw)
        if f.info and f.info[0] == 'attr': it.event('extmethod', dict(obj=f.info[1], name=f.info[2], args=args, kw=kw))
        return Opq(tm.uf('call', f.t, *ts), f.tag)
    return Opq(tm._mk('u', ('call', f.t) + tuple(ts)), f.tag)

def mkpath(it, s): return Opq(tm.uf('path', it.as_term(s)), 'path', s)

def strs(it, args):
    a = [it.simp(x) for x in args]
    a = [x.info if isinstance(x, Opq) and x.tag == 'path' else x for x in a]
    return a if all(isinstance(x, str) for x in a) else None

def path_attr(it, v, name):
    import pathlib
    p = pathlib.PurePosixPath(v.info)
    if name in ('name', 'stem', 'suffix'): return getattr(p, name)
    if name == 'suffixes': return it.mkL(p.suffixes)
    if name == 'parent': return mkpath(it, str(p.parent))
    return Opq(tm.uf('pathmeth.' + name, v.t), 'pathmeth', (v.info, name))

def path_call(it, s, name, args, kw):
    import pathlib
    p = pathlib.PurePosixPath(s); a = strs(it, args)
    if name in ('with_suffix', 'with_name', 'with_stem', 'joinpath') and a is not None and not kw:
        try: return mkpath(it, str(getattr(p, name)(*a)))
        except ValueError: return it.unk('path')
    if name in ('as_posix', '__str__', '__fspath__'): return str(p)
    if name == 'open': it.event('open', ([s] + list(args), kw)); return Opq(tm.uf('file', it.as_term(s), *[it.as_term(x) for x in args]), 'file', ('open', [s] + list(args)))
    if name in ('expanduser', 'resolve', 'absolute'): return mkpath(it, s)
    if name in ('mkdir', 'unlink', 'rename', 'replace', 'touch', 'rmdir', 'write_bytes', 'write_text'): it.event('io', ('pathlib.Path.' + name, [s] + list(args)))
    return it.unk('path method ' + name)

def dict_sym_get(it, d, k):
    items = it.heap[d.oid]
    if isinstance(k, Sym) or isinstance(k, Opq) and not k.t.unk:
        keys = [x for x in items if not (isinstance(x, str) and x.startswith('%'))]
        if keys and all(isinstance(x, str) for x in keys) or keys:
            r = None
            first = True
            for x in reversed(keys):
                if first: r = items[x]; first = False
                else: r = it.merge(it.truth(it.compare('Eq', k, x)), items[x], r)
            if r is not None: return r
        if '%default' in items: return items['%default'](it, k)
    return it.unk('symbolic dict key', k)


# ------------------------------------------------------------------ external attributes
def ext_attr(it, v, name):
    p = v.path
    if p + '.' + name in it.extvals: return it.extvals[p + '.' + name]
    if p in ('torch', 'numpy'):
        if name in ('float64', 'double', 'float32', 'int64', 'int32', 'bool', 'bool_', 'long', 'float', 'int', 'float16', 'half', 'int16', 'int8', 'uint8', 'single', 'complex128', 'uint16', 'uint32', 'bfloat16', 'float_', 'int_', 'intc', 'longlong'):
            return dtv((TORCH_DT if p == 'torch' else DT)[name])
        if name in CONST: return CONST[name]
        if name == 'nan': return Sym(tm.NAN, 'float')
        if name == 'inf': return Sym(tm.INF, 'float')
        if name == 'newaxis': return None
    if p == 'math':
        if name in CONST: return CONST[name]
        if name == 'nan': return Sym(tm.NAN, 'float')
        if name == 'inf': return Sym(tm.INF, 'float')
    if p == 'builtins': pass
    return Ext(p + '.' + name)


def shape_of(it, td):
    return tuple(it.dimval(tm.length(d)) if isinstance(d, Space) else d for d in td.dims)


def t_attr(it, t, name):
    td = it.td(t)
    if name == 'shape': return shape_of(it, td)
    if name == 'T': return view(it, t, V.permute(td, list(reversed(range(td.ndim)))))
    if name in ('mT',):
        o = list(range(td.ndim)); o[-1], o[-2] = o[-2], o[-1]
        return view(it, t, V.permute(td, o))
    if name == 'ndim': return td.ndim
    if name == 'dtype':
        return dtv(td.dtype)
    if name == 'device': return Opq(tm.uf('device'), 'device')
    if name == 'is_cuda' or name == 'requires_grad': return False
    if name in ('data', 'real'): return t
    if name == 'size' and td.lib == 'numpy': return it.dimval(V.size(td))
    if name == 'itemsize': return opq_attr(it, dtv(td.dtype), 'itemsize')
    if name == 'nbytes': return it.binop('Mult', it.dimval(V.size(td)), opq_attr(it, dtv(td.dtype), 'itemsize'))
    if name == 'flat': return it.newT(V.reshape(td, [-1]))
    return BMeth(t, name)


# ------------------------------------------------------------------ tensor methods
DTM = {'float': 'f32', 'double': 'f64', 'int': 'i32', 'long': 'i64', 'bool': 'b', 'half': 'f16', 'short': 'i16'}
SAME = {'cpu', 'detach', 'contiguous', 'cuda', 'requires_grad_', 'pin_memory', 'numpy', '__array__', 'resolve_conj'}

def to_(it, t, args, kw):
    td = it.td(t)
    dt = None
    for a in list(args) + [kw.get('dtype')]:
        a = it.simp(a)
        if isinstance(a, Opq) and a.tag == 'dtype': dt = a.info
        elif isinstance(a, Opq) and a.tag in ('device', 'str', 'opaque', '?') : 
            if a.tag in ('?', 'opaque') and a is not it.simp(kw.get('device')):
                dt = dtype_name(it, a) if kw.get('dtype') is not None and a is it.simp(kw.get('dtype')) else dt
        elif isinstance(a, Phi) and (isinstance(a.a, Opq) and a.a.tag == 'dtype' or isinstance(a.b, Opq) and a.b.tag == 'dtype'): dt = dtype_name(it, a)
        elif isinstance(a, T): dt = it.td(a).dtype
        elif isinstance(a, (Ext, str)) and not (isinstance(a, str) and a in ('cpu', 'cuda')):
            try: dt = dtype_name(it, a)
            except Unsupported: pass
    if dt is None or dt == td.dtype:
        if flag(it, kw.get('copy', False)): return it.newT(td)
        return t
    return it.newT(cast(td, dt))

FN['to'] = lambda it, lib, args, kw: to_(it, it.simp(args[0]), args[1:], kw)

def one_cell(it, v):
    td = it.td(v)
    if td.size_one(): return td.cells.reshape(-1)[0]
    return None

def scal(t, dtype):
    if tm.isnum(t) and not isinstance(t.args[0], complex): return int(t.args[0]) if dtype in INTS else float(t.args[0])
    if t is tm.TRUE: return True
    if t is tm.FALSE: return False
    return Sym(t, 'bool' if dtype == 'b' else 'int' if dtype in INTS else 'float')

def t_method(it, t, name, args, kw):
    td = it.td(t); lib = td.lib
    if name in SAME:
        if name in ('numpy', '__array__'):
            if lib == 'numpy': return t
            return it.mkT(td.repl(lib='numpy'), view_of=t)
        return t
    if name in ('clone', 'copy', '__deepcopy__', '__copy__'): return it.newT(td)
    if name in ('to', 'type', 'astype', 'type_as'):
        if name == 'astype':
            dt = dtype_name(it, arg(args, kw, 0, 'dtype'))
            return it.newT(cast(td, dt))
        if name == 'type_as': return it.newT(cast(td, it.td(it.simp(args[0])).dtype))
        return to_(it, t, args, kw)
    if name in DTM:
        if DTM[name] == td.dtype: return t
        return it.newT(cast(td, DTM[name]))
    if name in ('item', '__float__', '__int__'):
        c = one_cell(it, t)
        if c is None:
            if args: return it.getitem(t, args[0])
            it.event('shape', 'item() of a tensor of shape %s' % (td.dims,))
            return it.unk('item of non-scalar', t)
        return scal(c, td.dtype)
    if name == 'tolist':
        if td.ndim == 0: return scal(td.cells[()], td.dtype)
        if any(isinstance(d, Space) for d in td.dims):
            if td.ndim == 1:
                v = td.axes[0]; nv = v
                return it.mkL([Gen(nv, tm.TRUE, scal(td.flat()[0], td.dtype))])
            if isinstance(td.dims[0], Space) and not any(isinstance(d, Space) for d in td.dims[1:]):
                v = td.axes[0]
                sub_ = it.newT(TD(td.dims[1:], td.axes[1:], td.cells[0], td.dtype, lib))
                return it.mkL([Gen(v, tm.TRUE, t_method(it, sub_, 'tolist', [], {}))])
            raise Unsupported('tolist')
        def rec(c): return scal(c[()] if isinstance(c, np.ndarray) else c, td.dtype) if np.ndim(c) == 0 else it.mkL([rec(x) for x in c])
        return rec(td.cells)
    if name in ('numel', 'nelement'): return it.dimval(V.size(td))
    if name in ('dim', 'ndimension'): return td.ndim
    if name == 'element_size': return opq_attr(it, dtv(td.dtype), 'itemsize')
    if name == 'size':
        sh = shape_of(it, td)
        a = arg(args, kw, 0, 'dim')
        return sh if a is None else sh[int_of(it, a)]
    if name == 'is_floating_point': return td.dtype not in INTS + ('b',)
    if name == 'is_contiguous': return Sym(tm.batom('contiguous', tm.num(t.oid)), 'bool')
    if name == 'get_device': return -1
    if name in ('new_zeros', 'new_ones', 'new_empty', 'new_full'):
        k = dict(kw); k.setdefault('dtype', dtv(td.dtype))
        return FN[name[4:]](it, lib, args, k)
    if name == 'new_tensor': return make_array(it, lib, 'tensor', args, kw)
    if name in ('index_put_', 'index_put'):
        acc = flag(it, arg(args, kw, 2, 'accumulate', default=False))
        key = it.simp(args[0]); l = it.iter_list(key)
        key = tuple(l) if l is not None else key
        v0 = it.simp(args[1])
        if isinstance(v0, T) and it.td(v0).dtype != td.dtype: it.event('dtype', 'index_put_ of %s values into %s' % (it.td(v0).dtype, td.dtype))
        if acc: it.deposit(t, key, args[1], 'index_put_'); return t
        it.setitem(t, key, args[1]); return t
    if name in ('scatter_add_', 'index_add_', 'scatter_add', 'index_add'):
        tgt = t if name.endswith('_') else it.newT(td)
        ax = int_of(it, args[0])
        key = (slice(None),) * V.norm_axis(ax, td.ndim) + (args[1],)
        val = args[2]
        if 'alpha' in kw: val = it.binop('Mult', val, kw['alpha'])
        it.deposit(tgt, key, val, name)
        return tgt
    if name in ('copy_', 'set_'):
        v = it.to_td(args[0], lib)
        it.setitem(t, slice(None) if td.ndim else (), args[0]) if td.ndim else it.inplace(t, it.newT(v), 'copy', args[0])
        return t
    if name in ('fill_', 'zero_', 'fill'):
        c = it.as_term(args[0]) if args else tm.ZERO
        it.event('mutate', (td.root, t.oid, name))
        it.store_td(t, td.repl(cells=td.map(lambda _: c), tags=()))
        return t
    if name in ('resize_', 'sort') and lib == 'numpy' and name == 'sort':
        it.event('mutate', (td.root, t.oid, name)); it.store_td(t, td.repl(cells=td.map(lambda c: tm.unk('sorted in place', c)))); return None
    if name in ('random_', 'uniform_', 'normal_', 'bernoulli_', 'exponential_', 'shuffle'):
        it.event('rng', name); it.event('mutate', (td.root, t.oid, name))
        it.store_td(t, td.repl(cells=td.map(lambda c: tm.unk('random')))); return t
    if name.endswith('_') and not name.startswith('_') and name[:-1] in METH:
        base = name[:-1]
        if base in ('squeeze', 'unsqueeze', 't', 'transpose', 'swapaxes'):
            r = t_method(it, t, base, args, kw)
            it.heap[t.oid] = it.td(r).repl(root=td.root); return t
        r = t_method(it, t, base, args, kw)
        r = it.simp(r)
        it.inplace(t, r, base, None)
        return t
    if name in ('permute', 'view', 'reshape', 'expand', 'repeat'): return FN[name](it, lib, [t] + list(args), kw)
    if name in METH and name in FN:
        return FN[name](it, lib, [t] + list(args), kw)
    if name == 'norm': return FN['norm'](it, lib, [t] + list(args), kw)
    if name in ('__len__',): return call_ext(it, 'builtins.len', [t], {})
    raise Unsupported('method %s' % name)

METH = set(FN) | {'add', 'sub', 'mul', 'div', 'pow', 'norm', 'clamp', 'abs', 'masked_fill', 'to'}
METH -= CREATE


# ------------------------------------------------------------------ method calls on builtin values
def call_method(it, self, name, args, kw):
    try:
        if isinstance(self, T): return t_method(it, self, name, args, kw)
        if isinstance(self, Lst): return lst_method(it, self, name, args, kw)
        if isinstance(self, Dct): return dct_method(it, self, name, args, kw)
        if isinstance(self, str) or isinstance(self, Opq) and self.tag == 'str': return str_method(it, self, name, args, kw)
        if isinstance(self, Opq) and self.tag == 'dtype': return Sym(tm.batom('dtype.' + name, self.t), 'bool')
        if self is None and name == 'noop': return None
        if isinstance(self, tuple):
            if name == 'index':
                for i, x in enumerate(self):
                    if it.truth(it.compare('Eq', x, args[0])) is tm.TRUE: return i
            if name == 'count' : return it.unk('tuple count')
            if name == 'numel':
                r = 1
                for x in self: r = it.binop('Mult', r, x)
                return r
        if isinstance(self, (int, float, Sym)):
            if name == 'item': return self
            if name in ('is_integer',): return Sym(tm.batom('is_integer', it.as_term(self)), 'bool')
            if name in ('astype', 'copy', 'conjugate', 'squeeze', 'flatten', 'ravel', 'reshape', 'dot', 'sum', 'max', 'min', 'mean', 'clone', 'detach', 'cpu', 'numpy', 'tolist', 'unsqueeze', 'long', 'int', 'float', 'double'):
                return t_method(it, it.newT(it.to_td(self)), name, args, kw)
    except Conflict as e:
        it.event('shape', str(e)); return it.unk('shape conflict: %s' % e, self)
    except Unsupported as e:
        return it.unk('%s' % e, self, *args)
    return it.unk('method %s of %s' % (name, type(self).__name__), self)


def lst_method(it, l, name, args, kw):
    if name == 'append': it.list_append(l, args[0]); return None
    if name == 'extend': it.list_extend(l, args[0]); return None
    its = it.items(l)
    if name == 'copy': return it.mkL(its)
    if name in ('index', 'count', 'pop', 'insert', 'remove', 'sort', 'reverse', 'clear'):
        conc = all(not isinstance(i, (Gen, Phi)) for i in its)
        if name == 'index' and conc:
            for i, x in enumerate(its):
                if it.truth(it.compare('Eq', x, args[0])) is tm.TRUE: return i
            return Sym(tm.uf('index', it.as_term(l), it.as_term(args[0])), 'int')
        if name == 'pop' and conc and its and (not args or isinstance(args[0], int)):
            it.event('setitem', (l, 'pop'))
            k = args[0] if args else -1
            r = its[k]; x = list(its); x.pop(k); it.heap[l.oid] = tuple(x); return r
        if name == 'insert' and conc and isinstance(args[0], int):
            it.event('setitem', (l, 'insert'))
            x = list(its); x.insert(args[0], args[1]); it.heap[l.oid] = tuple(x); return None
        if name == 'clear': it.event('setitem', (l, name)); it.heap[l.oid] = (); return None
        if name == 'reverse' and conc: it.event('setitem', (l, name)); it.heap[l.oid] = tuple(reversed(its)); return None
        if name == 'sort' and conc and all(isinstance(x, (int, float)) for x in its): it.event('setitem', (l, name)); it.heap[l.oid] = tuple(sorted(its)); return None
        if name != 'index' and name != 'count':
            it.event('setitem', (l, name)); it.heap[l.oid] = (it.unk('list ' + name, l),)
        return it.unk('list ' + name, l, *args)
    if name in ('add', 'update'):        # set modelled as a list
        it.list_append(l, args[0]) if name == 'add' else it.list_extend(l, args[0]); return None
    return it.unk('list method ' + name, l)


def dct_method(it, d, name, args, kw):
    items = it.heap[d.oid]
    keys = [k for k in items if not (isinstance(k, str) and k.startswith('%'))]
    if name in ('keys', '__iter__'): return it.mkL(keys)
    if name == 'values': return it.mkL([it.getitem(d, k) for k in keys])
    if name == 'items': return it.mkL([(k, it.getitem(d, k)) for k in keys])
    if name == 'get':
        k = it.simp(args[0])
        if isinstance(k, (str, int, float, bool, tuple)) or k is None:
            if k in items: return it.getitem(d, k)
            return args[1] if len(args) > 1 else None
        return it.unk('dict get', k)
    if name == 'copy': return it.mkD(items)
    if name == 'update':
        it.event('setitem', (d, 'update'))
        n = dict(items)
        if args:
            o = it.simp(args[0])
            if isinstance(o, Dct): n.update(it.heap[o.oid])
            else:
                l = it.iter_list(o)
                if l is None: it.note('dict update')
                else:
                    for p in l:
                        k, v = it.unpack(p, 2)
                        n[k] = v
        n.update(kw); it.heap[d.oid] = n; return None
    if name in ('pop', 'setdefault'):
        k = args[0]
        it.event('setitem', (d, name))
        if name == 'pop':
            if k in items:
                r = items[k]; n = dict(items); del n[k]; it.heap[d.oid] = n; return r
            if len(args) > 1: return args[1]
            it.event('keyerror', k); return it.unk('dict pop')
        if k in items: return items[k]
        n = dict(items); n[k] = args[1] if len(args) > 1 else None; it.heap[d.oid] = n; return n[k]
    if name == 'clear': it.event('setitem', (d, name)); it.heap[d.oid] = {}; return None
    return it.unk('dict method ' + name)


def str_method(it, s, name, args, kw):
    if isinstance(s, str) and all(isinstance(it.simp(a), (str, int, tuple)) for a in args) and not kw:
        a = [it.simp(x) for x in args]
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'title', 'capitalize', 'isdigit', 'isalpha', 'find', 'count', 'zfill', 'rjust', 'ljust', 'casefold', 'index', 'removesuffix', 'removeprefix'):
            try: return getattr(s, name)(*a)
            except Exception: return it.unk('str ' + name)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            r = getattr(s, name)(*a)
            return it.mkL(r) if isinstance(r, list) else r
    if name == 'join' and isinstance(s, str):
        l = it.iter_list(args[0])
        if l is not None and all(isinstance(x, str) for x in l): return s.join(l)
    t = it.as_term(s); ts = [it.as_term(a) for a in args]
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
        return Sym(tm.batom('str.' + name, t, *ts), 'bool')
    if name in ('find', 'count', 'index'): return Sym(tm.uf('str.' + name, t, *ts), 'int')
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'): return Opq(tm.uf('str.' + name, t, *ts), 'str')
    return Opq(tm.uf('str.' + name, t, *ts), 'str')


# ------------------------------------------------------------------ calls of external functions
TAKES_ARRAYS = ('tensor', 'as_tensor', 'asarray', 'from_numpy', 'is_tensor', 'Tensor', 'FloatTensor', 'DoubleTensor')


def call_ext(it, path, args, kw):
    args = list(args)
    try:
        if path.startswith('builtins.'): return builtin(it, path[9:], args, kw)
        f = OVER.get(path)
        if f is not None: return f(it, args, kw)
        if path.startswith('os.path.') or path == 'os.fspath':
            a = strs(it, args); nm = path.rsplit('.', 1)[-1]
            if a is not None and not kw and nm in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath', 'fspath'):
                import posixpath
                return a[0] if nm == 'fspath' else getattr(posixpath, nm)(*a)
        if path in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath', 'pathlib.PurePosixPath'):
            a = strs(it, args)
            if a is not None:
                import pathlib
                return mkpath(it, str(pathlib.PurePosixPath(*a)))
        top, _, rest = path.partition('.')
        if top == 'torch' and rest not in TAKES_ARRAYS:
            for a in args:
                if isinstance(a, T) and it.td(a).lib == 'numpy' and it.td(a).ndim: it.event('notensor', path); break
        if top in ('torch', 'numpy'):
            return lib_call(it, top, rest, args, kw)
        if path in IO or path.startswith('shutil.'):
            it.event('io', (path, args)); return Opq(tm.uf(path, *[it.as_term(a) for a in args]), 'opaque')
        if path in CLOCK or top in ('random', 'secrets', 'uuid', 'time', 'datetime'):
            it.event('rng' if top != 'time' or path in CLOCK else 'clock', path)
            return it.unk('nondeterministic %s' % path)
        if path.startswith(PURE) or top in ('xfab', 'scipy'):
            if path.endswith(('.basicConfig', '.getLogger', '.setLevel')): return Opq(tm.uf(path), 'opaque')
            return pure(it, path, args, kw)
        if path.startswith(SIDE): return Opq(tm.uf(path), 'opaque')
        if path.startswith('warnings.'):
            it.event('warn', args[0] if args else None); return None
        if path.startswith('gc.'): return Opq(tm.uf(path), 'opaque')
    except Conflict as e:
        it.event('shape', str(e)); return it.unk('shape conflict: %s' % e, *args)
    except Unsupported as e:
        return it.unk('%s: %s' % (path, e), *(list(args) + list(kw.values())))
    return it.unk('external %s' % path, *(list(args) + list(kw.values())))


def pure(it, path, args, kw):
    ts = [it.as_term(a) for a in args]
    for k in sorted(kw): ts += [tm.uf('kw:' + k), it.as_term(kw[k])]
    return Opq(tm.uf(path, *ts), 'str' if path.startswith('os.path.') else 'opaque', ('ext', path, args))


def rng_value(it, name, args, kw):
    """an arbitrary value of the right shape: atoms named by the drawing site"""
    name = name.split('.')[-1]
    sizes = {'choice': 1, 'integers': 2, 'randint': 2, 'exponential': 1, 'standard_normal': 0, 'standard_exponential': 0, 'random': 0, 'random_sample': 0, 'sample': 0, 'uniform': 2, 'normal': 2, 'gamma': 2, 'poisson': 1}
    if name in ('rand', 'randn') and args: sz = args[0] if len(args) == 1 else tuple(args)
    elif name in sizes: sz = kw.get('size', args[sizes[name]] if len(args) > sizes[name] else ())
    else: return it.unk('random value', *args)
    if name == 'choice':
        a0 = it.simp(args[0])
        if not isinstance(a0, (int, Sym)) or flag(it, kw.get('replace', True)) is False: return it.unk('random value', *args)
    sz = it.simp(sz)
    if sz is None: sz = ()
    try: dims = shape_list(it, [sz]) if isinstance(sz, (tuple, Lst)) else [as_dim(it, sz)]
    except Unsupported: return it.unk('random value', *args)
    it.nrng = getattr(it, 'nrng', 0) + 1
    axes, used = [], set()
    for d in dims:
        a = V.free_axis(d, used) if isinstance(d, Space) else None
        if a is not None: used.add(a)
        axes.append(a)
    sh = tuple(1 if isinstance(d, Space) else d for d in dims)
    if np.prod(sh) > 4096: return it.unk('random value', *args)
    isint = name in ('choice', 'integers', 'randint', 'poisson')
    nm = 'rng_%s%d' % (name, it.nrng)
    cells = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        ix = [a for a in axes if a is not None]
        n = nm + ''.join('_%d' % q for q, d in zip(i, dims) if not isinstance(d, Space))
        cells[i] = tm.iatom(n, *ix) if isint else tm.atom(n, *ix, pos=name in ('exponential', 'random', 'rand'))
    return it.newT(TD(tuple(dims), tuple(axes), cells, 'i64' if isint else 'f64', 'numpy'))


def lib_call(it, lib, name, args, kw):
    kw = dict(kw)
    kw.pop('device', None); kw.pop('requires_grad', None); kw.pop('order', None); kw.pop('memory_format', None)
    if lib == 'numpy':
        if name.startswith('random.'):
            if name == 'random.default_rng' or name == 'random.RandomState' or name == 'random.SeedSequence':
                it.event('rng', 'numpy.' + name); return Opq(tm.unk('rng', *[it.as_term(a) for a in args]), 'rng')
            it.event('rng', 'numpy.' + name); return rng_value(it, name, args, kw)
        if name == 'add.at':
            it.deposit(it.simp(args[0]), args[1], args[2], 'add.at'); return None
        if name in ('maximum.at', 'minimum.at', 'subtract.at'): raise Unsupported(name)
        if name in ('save', 'savez', 'savetxt', 'load', 'loadtxt', 'savez_compressed'):
            it.event('io', ('numpy.' + name, args)); return Opq(tm.uf('numpy.' + name, *[it.as_term(a) for a in args]), 'opaque')
        if name in ('errstate', 'seterr', 'printoptions', 'set_printoptions', 'testing.assert_allclose'): return Opq(tm.uf(name), 'opaque')
        if name == 'finfo' or name == 'iinfo': return Opq(tm.uf('finfo', *[it.as_term(a) for a in args]), 'finfo')
        if name in ('float64', 'float32', 'int64', 'int32', 'bool_', 'float_', 'int_', 'intp'):
            return it.newT(cast(it.to_td(args[0], lib), DT.get(name, 'i64')))
        if name == 'dtype': return dtv(dtype_name(it, args[0]))
        if name == 'ix_':
            tds = [it.to_td(a, lib) for a in args]
            n = len(tds); out = []
            for j, t in enumerate(tds):
                for q in range(n):
                    if q != j: t = V.expand(t, min(q, t.ndim)) if q < j else V.expand(t, t.ndim)
                out.append(it.newT(t))
            return tuple(out)
        if name == 'vectorize': return args[0]
        if name == 'interp': raise Unsupported('interp')
    else:
        if name in RNG_TORCH or name.startswith('distributions'):
            it.event('rng', 'torch.' + name); return rng_value(it, name, args, kw)
        if name in ('no_grad', 'inference_mode', 'enable_grad', 'set_grad_enabled', 'autograd.no_grad', 'compile', 'set_num_threads', 'set_printoptions', 'cuda.empty_cache', 'cuda.synchronize'): return Opq(tm.uf(name), 'opaque')
        if name in ('set_default_dtype', 'set_default_tensor_type', 'use_deterministic_algorithms', 'set_default_device', 'set_float32_matmul_precision'):
            it.event(name, args); return None
        if name == 'get_default_dtype': return dtv(it.default_dtype(lib))
        if name == 'get_default_device': return Opq(tm.uf('device'), 'device')
        if name == 'device': return Opq(tm.uf('device'), 'device')
        if name == 'finfo' or name == 'iinfo': return Opq(tm.uf('finfo', *[it.as_term(a) for a in args]), 'finfo')
        if name in ('cuda.is_available', 'backends.mps.is_available', 'backends.cuda.is_built'):
            c = tm.batom(name); k = it.known(c)
            return k if k is not None else Sym(c, 'bool')
        if name.startswith('cuda.'): return Opq(tm.uf('torch.' + name, *[it.as_term(a) for a in args]), 'opaque')
        if name == 'Size': return tuple(it.iter_list(args[0]))
        if name in ('save', 'load'):
            it.event('io', ('torch.' + name, args)); return Opq(tm.uf('torch.' + name, *[it.as_term(a) for a in args]), 'opaque')
        if name in ('special.bessel_j1',):
            td = it.to_td(args[0], lib); return it.newT(td.repl(cells=td.map(lambda c: tm.fn('j1', c))))
        if name in ('index_put', 'scatter_add', 'index_add'):
            return t_method(it, it.simp(args[0]), name, args[1:], kw)
        if name == 'numel': return it.dimval(V.size(it.to_td(args[0], lib)))
        if name == 'promote_types' or name == 'result_type': raise Unsupported(name)
        if name.startswith('nn.') and name not in FN: raise Unsupported(name)
    out = kw.pop('out', None) if name not in ('add', 'mul', 'multiply', 'subtract', 'divide', 'matmul', 'sub', 'div') else None
    if name in CREATE: r = make_array(it, lib, name, args, kw)
    elif name in FN:
        def go(*xs):
            return FN[name](it, lib, list(xs), kw)
        if args and name not in ('cat', 'concatenate', 'stack', 'where', 'einsum'):
            r = it.lift(lambda x: FN[name](it, lib, [x] + args[1:], kw), args[0]) if isinstance(it.simp(args[0]), Phi) else FN[name](it, lib, args, kw)
        else: r = FN[name](it, lib, args, kw)
    else: raise Unsupported('no model')
    if out is not None:
        o = it.simp(out)
        if isinstance(o, T) and isinstance(r, T): it.inplace(o, r, 'out', None); return o
    return r


# ------------------------------------------------------------------ builtins
def length_of(it, v):
    v = it.simp(v)
    if isinstance(v, T):
        td = it.td(v)
        if td.ndim == 0: it.event('raise', 'TypeError:len of scalar'); raise Unsupported('len of 0-d tensor')
        return it.dimval(tm.length(td.dims[0])) if isinstance(td.dims[0], Space) else td.dims[0]
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, range): return len(v)
    if isinstance(v, Lst):
        n = tm.ZERO
        for i in it.items(v):
            if isinstance(i, Gen):
                vv, _ = it.gen_space(i); n = tm.add(n, tm.length(vv.args[0]))
            elif isinstance(i, Phi) and isinstance(i.a, tuple) and i.a[:1] == ('%items',):
                n = tm.add(n, tm.ite(i.c, tm.num(len(i.a) - 1), tm.num(len(i.b) - 1)))
            else: n = tm.add(n, tm.ONE)
        return it.dimval(n)
    if isinstance(v, Dct): return len([k for k in it.heap[v.oid] if not (isinstance(k, str) and k.startswith('%'))])
    if isinstance(v, SymIter): return it.dimval(tm.length(v.space))
    if isinstance(v, Obj):
        m = it.member(v.cls, '__len__') if isinstance(v.cls, ClassV) else None
        if isinstance(m, FuncV): return it.call(BoundM(v, m), [], {})
    if isinstance(v, Opq): return Sym(tm._mk('u', ('len', v.t)), 'int')
    raise Unsupported('len')


def type_test(it, v, c):
    """isinstance as a boolean term"""
    v = it.simp(v); c = it.simp(c)
    if isinstance(v, Phi):
        return tm.or_(tm.and_(v.c, type_test(it, v.a, c)), tm.and_(tm.not_(v.c), type_test(it, v.b, c)))
    if isinstance(c, tuple):
        r = tm.FALSE
        for x in c: r = tm.or_(r, type_test(it, v, x))
        return r
    B = lambda b: tm.TRUE if b else tm.FALSE
    if isinstance(c, ClassV):
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            seen = [v.cls]
            while seen:
                k = seen.pop()
                if k is c or (k.name == c.name and k.mod == c.mod): return tm.TRUE
                seen += k.bases
            return tm.FALSE
        if isinstance(v, Opq): return tm._mk('batom', ('isinst:' + c.name, v.t))
        return tm.FALSE
    if isinstance(c, Opq) and c.tag == 'dtype':
        return B(False) if not isinstance(v, Opq) else tm._mk('batom', ('isinst:dt', v.t, c.t))
    if isinstance(c, Ext):
        p = c.path
        if isinstance(v, Opq) and v.tag not in ('str', 'num', 'hull', 'dtype', 'device', 'callback'):
            return tm._mk('batom', ('isinst:' + p, v.t))
        if p in ('torch.Tensor', 'torch.FloatTensor'): return B(isinstance(v, T) and it.td(v).lib == 'torch')
        if p == 'numpy.ndarray': return B(isinstance(v, T) and it.td(v).lib == 'numpy')
        if p == 'builtins.list': return B(isinstance(v, Lst))
        if p == 'builtins.tuple': return B(isinstance(v, tuple))
        if p == 'builtins.dict': return B(isinstance(v, Dct))
        if p == 'builtins.str': return B(isinstance(v, str) or isinstance(v, Opq) and v.tag == 'str')
        if p == 'builtins.bool': return B(isinstance(v, bool) or isinstance(v, Sym) and v.ty == 'bool')
        if p in ('builtins.int', 'numbers.Integral'): return B(isinstance(v, int) or isinstance(v, Sym) and v.ty in ('int', 'bool'))
        if p in ('builtins.float',): return B(isinstance(v, float) or isinstance(v, Sym) and v.ty == 'float')
        if p in ('numbers.Number', 'numbers.Real'): return B(isinstance(v, (int, float, Sym)))
        if p in ('numpy.floating', 'numpy.integer', 'numpy.number', 'numpy.float64', 'numpy.generic'):
            return B(isinstance(v, T) and it.td(v).lib == 'numpy' and it.td(v).ndim == 0)
        if p == 'builtins.object': return tm.TRUE
        if p in ('collections.abc.Sequence', 'collections.abc.Iterable'): return B(isinstance(v, (Lst, tuple, str)) or (isinstance(v, (T, Dct)) and p.endswith('Iterable')))
        if p in ('collections.abc.Callable',): return B(isinstance(v, (FuncV, BoundM, ClassV)) or isinstance(v, Opq) and v.tag == 'callback')
        if p in ('torch.device',): return B(isinstance(v, Opq) and v.tag == 'device')
        if p in ('torch.dtype',): return B(isinstance(v, Opq) and v.tag == 'dtype')
        if isinstance(v, Obj): return B(v.cls == p)
        if isinstance(v, (T, Lst, Dct, tuple, str, int, float, Sym)) or v is None: return tm.FALSE
    return tm.batom('isinst', it.as_term(v), it.as_term(c))


def to_num(it, v, kind):
    v = it.simp(v)
    if isinstance(v, Phi): return it.lift(lambda x: to_num(it, x, kind), v)
    if isinstance(v, (bool, int, float)): return int(v) if kind == 'int' else float(v)
    if isinstance(v, str):
        s = v.strip().lower()
        if kind == 'float':
            if s in ('inf', '+inf', 'infinity'): return Sym(tm.INF, 'float')
            if s == '-inf': return Sym(tm.neg(tm.INF), 'float')
            if s == 'nan': return Sym(tm.NAN, 'float')
        try: return int(v) if kind == 'int' else float(v)
        except Exception: raise Unsupported('number from string')
    if isinstance(v, Sym): c = v.t
    elif isinstance(v, T):
        c = one_cell(it, v)
        if c is None:
            it.event('shape', '%s() of shape %s' % (kind, it.td(v).dims)); raise Unsupported('scalar of array')
    elif isinstance(v, Opq): c = v.t
    else: raise Unsupported('number')
    if tm.is_bool(c): c = tm.ite(c, tm.ONE, tm.ZERO)
    if kind == 'int':
        c = tm.fn('trunc', c)
        if tm.isnum(c): return int(c.args[0])
        return Sym(c, 'int')
    if tm.isnum(c): return float(c.args[0].real)
    return Sym(c, 'float')


def builtin(it, name, args, kw):
    a0 = it.simp(args[0]) if args else None
    if name == 'len': return it.lift(lambda v: length_of(it, v), a0)
    if name == 'isinstance': return it.pybool(it._known_or(type_test(it, a0, args[1])))
    if name == 'print': it.event('print', args); return None
    if name == 'input': it.event('print', args); return it.unk('input')
    if name == 'open':
        it.event('open', (args, kw)); return Opq(tm.uf('file', *[it.as_term(a) for a in args]), 'file', ('open', args))
    if name == 'int': return to_num(it, a0, 'int') if args else 0
    if name == 'float': return to_num(it, a0, 'float') if args else 0.0
    if name == 'bool': return it.pybool(it.truth(a0)) if args else False
    if name in ('str', 'repr', 'format', 'hex'):
        if name == 'str' and isinstance(a0, (str, int, bool)): return str(a0)
        if name == 'str' and isinstance(a0, Opq) and a0.tag == 'str': return a0
        if name == 'str' and isinstance(a0, Opq) and a0.tag == 'path': return a0.info
        if name == 'str' and not args: return ''
        return Opq(tm.uf(name, *[it.as_term(a) for a in args]), 'str')
    if name == 'id': return Opq(tm.uf('id', it.as_term(a0)), 'opaque')
    if name == 'range': return range_(it, args)
    if name in ('list', 'tuple', 'set', 'frozenset', 'iter'):
        if not args: return () if name == 'tuple' else it.mkL([])
        if isinstance(a0, Phi): return it.lift(lambda x: builtin(it, name, [x], kw), a0)
        l = it.iter_list(a0)
        if l is None:
            segs = it.iteration(a0)
            if segs is None: return it.unk(name, a0)
            its = [Gen(x.v, x.cond, x.elem) if isinstance(x, SymIter) else x for x in segs]
            return it.mkL(its)
        if name in ('set', 'frozenset'):
            out = []
            for x in l:
                if not any(type(x) == type(y) and x == y for y in out): out.append(x)
            return it.mkL(out)
        return tuple(l) if name == 'tuple' else it.mkL(l)
    if name == 'dict':
        d = {}
        if args:
            if isinstance(a0, Dct): d.update(it.heap[a0.oid])
            else:
                l = it.iter_list(a0)
                if l is None: return it.unk('dict', a0)
                for p in l:
                    k, v = it.unpack(p, 2); d[k] = v
        d.update(kw); return it.mkD(d)
    if name == 'enumerate':
        st = arg(args, kw, 1, 'start', default=0)
        segs = it.iteration(a0)
        if segs is None: raise Unsupported('enumerate')
        if not any(isinstance(x, SymIter) for x in segs) and isinstance(st, int): return it.mkL([(i + st, x) for i, x in enumerate(segs)])
        if len(segs) == 1:
            x = segs[0]
            i = Sym(x.v, 'int') if not isinstance(x.kind, tuple) else it.unk('batch number')
            if not (isinstance(st, int) and st == 0): i = it.binop('Add', i, st)
            return ('%iter', [SymIter(x.v, (i, x.elem), x.kind, x.cond)])
        raise Unsupported('enumerate of mixed sequence')
    if name == 'zip':
        segs = []
        for a in args:
            s = it.iteration(it.simp(a))
            if s is None: raise Unsupported('zip')
            segs.append(s)
        if all(not any(isinstance(x, SymIter) for x in s) for s in segs): return it.mkL([tuple(t) for t in zip(*segs)])
        if all(len(s) == 1 for s in segs):
            sp = {x[0].space if isinstance(x[0], SymIter) else None for x in segs}
            if len(sp) == 1:
                v0 = segs[0][0].v; el = []; cond = tm.TRUE
                for (x,) in segs:
                    f = (lambda t, x=x: tm.let({x.v: v0}, t)) if x.v is not v0 else (lambda t: t)
                    el.append(it.map_value(x.elem, f) if x.v is not v0 else x.elem); cond = tm.and_(cond, f(x.cond))
                return ('%iter', [SymIter(v0, tuple(el), segs[0][0].kind, cond)])
        it.event('misaligned', ['zip of different index spaces'])
        raise Unsupported('zip of different sequences')
    if name in ('min', 'max'):
        xs = [it.simp(a) for a in args]
        if len(xs) == 1:
            l = it.iter_list(xs[0])
            if l is not None: xs = [it.simp(x) for x in l]
            elif isinstance(xs[0], T): return FN[name](it, it.td(xs[0]).lib, [xs[0]], {})
            elif isinstance(xs[0], Lst): return FN['amax' if name == 'max' else 'amin'](it, 'numpy', [it.newT(it.list_td(xs[0], 'numpy'))], {})
            else: raise Unsupported(name)
        if kw: raise Unsupported(name + ' with key')
        f = V.tmax if name == 'max' else V.tmin
        r = xs[0]
        for x in xs[1:]:
            def go(p, q):
                if isinstance(p, (int, float)) and isinstance(q, (int, float)): return max(p, q) if name == 'max' else min(p, q)
                tp = one_cell(it, p) if isinstance(p, T) else it.as_term(p)
                tq = one_cell(it, q) if isinstance(q, T) else it.as_term(q)
                if tp is None or tq is None: raise Unsupported('max of arrays')
                t = f(tp, tq)
                ty = 'int' if all(it._isint(z) or isinstance(z, T) and it.td(z).dtype in INTS for z in (p, q)) else 'float'
                return scal(t, 'i64' if ty == 'int' else 'f64') if not tm.isnum(t) else (int(t.args[0]) if ty == 'int' else t.args[0])
            r = it.lift(go, r, x)
        return r
    if name == 'abs':
        def go(v):
            if isinstance(v, (int, float)): return abs(v)
            if isinstance(v, Sym): return Sym(tm.fn('abs', v.t), v.ty)
            return FN['abs'](it, it.td(v).lib if isinstance(v, T) else 'torch', [v], {})
        return it.lift(go, a0)
    if name == 'sum':
        l = it.iter_list(a0)
        st = args[1] if len(args) > 1 else 0
        if l is not None:
            r = st
            for i, x in enumerate(l): r = x if i == 0 and r == 0 and not isinstance(r, T) else it.binop('Add', r, x)
            return r
        if isinstance(a0, T): return FN['sum'](it, it.td(a0).lib, [a0], {'axis': 0})
        if isinstance(a0, Lst): return FN['sum'](it, 'numpy', [it.newT(it.list_td(a0, 'numpy'))], {'axis': 0})
        raise Unsupported('sum')
    if name in ('any', 'all'):
        l = it.iter_list(a0)
        r = tm.FALSE if name == 'any' else tm.TRUE
        if l is not None:
            for x in l: r = tm.or_(r, it.truth(x)) if name == 'any' else tm.and_(r, it.truth(x))
            return it.pybool(it._known_or(r))
        segs = it.items(a0) if isinstance(a0, Lst) else None
        if isinstance(a0, T): return FN[name](it, it.td(a0).lib, [a0], {})
        if segs is None: raise Unsupported(name)
        for g in segs:
            if isinstance(g, Gen):
                c = it.truth(g.elem)
                c = tm.and_(g.cond, c) if name == 'any' else tm.or_(tm.not_(g.cond), c)
                c = tm.red(name, g.v.args[0], g.v, c)
            else: c = it.truth(g)
            r = tm.or_(r, c) if name == 'any' else tm.and_(r, c)
        return it.pybool(it._known_or(r))
    if name == 'getattr':
        if len(args) > 2:
            if isinstance(a0, Obj) and isinstance(args[1], str):
                d = it.attrs(a0)
                if args[1] in d or isinstance(a0.cls, ClassV) and isinstance(it.member(a0.cls, args[1]), (FuncV, tuple)): return it.getattr(a0, args[1])
                return args[2]
            if isinstance(a0, (Opq,)): return Phi(tm._mk('batom', ('hasattr', a0.t, it.as_term(args[1]))), it.getattr(a0, args[1]), args[2])
            return args[2]
        if isinstance(args[1], str): return it.getattr(a0, args[1])
        return it.unk('getattr', a0)
    if name == 'hasattr':
        if isinstance(a0, Obj) and isinstance(args[1], str):
            if args[1] in it.attrs(a0): return True
            if isinstance(a0.cls, ClassV):
                from .interp import _UNDEF
                return it.member(a0.cls, args[1]) is not _UNDEF
            return False
        if isinstance(a0, T): return args[1] in ('shape', 'dtype', 'ndim', 'reshape', 'T') or (args[1] in ('cpu', 'detach', 'device', 'numel', 'numpy', 'is_cuda') and it.td(a0).lib == 'torch') or (args[1] == 'astype' and it.td(a0).lib == 'numpy')
        if isinstance(a0, (int, float, Sym, str, Lst, Dct, tuple)) or a0 is None: return args[1] in ('__len__', '__iter__') and not isinstance(a0, (int, float, Sym)) and a0 is not None
        if isinstance(a0, FuncV): return args[1] in ('__name__', '__call__')
        return Sym(tm._mk('batom', ('hasattr', it.as_term(a0), it.as_term(args[1]))), 'bool')
    if name == 'setattr':
        if isinstance(args[1], str): it.set_attribute(a0, args[1], args[2])
        else: it.event('setattr', (a0, '?')); it.note('setattr')
        return None
    if name == 'callable': 
        if isinstance(a0, (FuncV, BoundM, BMeth, ClassV, Ext)): return True
        if isinstance(a0, Opq): return True if a0.tag == 'callback' else Sym(tm._mk('batom', ('callable', a0.t)), 'bool')
        return False
    if name == 'type':
        if isinstance(a0, Obj): return a0.cls if isinstance(a0.cls, ClassV) else Ext(str(a0.cls))
        if isinstance(a0, T): return Ext('torch.Tensor' if it.td(a0).lib == 'torch' else 'numpy.ndarray')
        for ty, nm in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (Lst, 'list'), (tuple, 'tuple'), (Dct, 'dict')):
            if isinstance(a0, ty): return Ext('builtins.' + nm)
        return Opq(tm.uf('type', it.as_term(a0)), 'opaque')
    if name == 'super':
        fr = it.frames[-1]
        ns = it.heap[fr.oid]
        me = next((v for k, v in ns.items() if k == 'self'), None)
        c = None
        if me is not None and isinstance(me, Obj) and isinstance(me.cls, ClassV):
            q = fr.func.split('.')
            cn = q[-2] if len(q) > 1 else ''
            stack = [me.cls]
            while stack:
                k = stack.pop()
                if k.name == cn: c = k; break
                stack += k.bases
        if c is None: raise Unsupported('super')
        return ('%super', me, c)
    if name == 'round':
        n = args[1] if len(args) > 1 else None
        def go(v):
            if isinstance(v, (int, float)): return round(v, n) if n is not None else round(v)
            c = one_cell(it, v) if isinstance(v, T) else it.as_term(v)
            if n is None: return Sym(tm.fn('round', c), 'int')
            return Sym(tm.fn('roundd', c, it.as_term(n)), 'float')
        return it.lift(go, a0)
    if name == 'sorted':
        l = it.iter_list(a0)
        if l is not None and all(isinstance(x, (int, float)) for x in l) or l is not None and all(isinstance(x, str) for x in l):
            return it.mkL(sorted(l, reverse=bool(kw.get('reverse', False)))) if 'key' not in kw else it.unk('sorted with key')
        if l is not None and len(l) <= 5 and 'key' not in kw and all(isinstance(it.simp(x), (int, float, Sym, T)) for x in l):
            xs = list(l)      # (a sorting network of minima and maxima)
            for i in range(len(xs)):
                for j in range(len(xs) - 1 - i):
                    xs[j], xs[j + 1] = builtin(it, 'min', [xs[j], xs[j + 1]], {}), builtin(it, 'max', [xs[j], xs[j + 1]], {})
            return it.mkL(xs[::-1] if kw.get('reverse', False) is True else xs)
        return it.unk('sorted', a0)
    if name == 'reversed':
        l = it.iter_list(a0)
        if l is not None: return it.mkL(list(reversed(l)))
        raise Unsupported('reversed')
    if name == 'map':
        segs = it.iteration(args[1]) if len(args) == 2 else None
        if segs is None: raise Unsupported('map')
        out = []
        for x in segs:
            if isinstance(x, SymIter):
                it.loops.append((x.v, 'comp', 0)); out.append(Gen(x.v, x.cond, it.call(a0, [x.elem], {}))); it.loops.pop()
            else: out.append(it.call(a0, [x], {}))
        return it.mkL(out)
    if name == 'slice':
        if len(args) == 1: return slice(None, args[0], None)
        return slice(*(list(args) + [None] * (3 - len(args))))
    if name == 'pow': return it.binop('Pow', args[0], args[1])
    if name == 'divmod': return (it.binop('FloorDiv', args[0], args[1]), it.binop('Mod', args[0], args[1]))
    if name == 'vars': return it.getattr(a0, '__dict__')
    if name in ('staticmethod', 'classmethod', 'property', 'object'): return a0
    if name[0].isupper(): return Opq(tm.uf('exc:' + name), 'exception')
    raise Unsupported('builtin ' + name)


def range_(it, args):
    a = [it.simp(x) for x in args]
    c = [int_of(it, x) for x in a]
    if all(x is not None for x in c) and len(range(*c)) <= 2048: return range(*c)
    if any(isinstance(x, Phi) for x in a):
        return it.unk('range of alternatives')
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    s, e, p = term_of(it, st), term_of(it, en), term_of(it, sp)
    if tm.isnum(p) and p.args[0] == 1:
        d = sym_dim(tm.sub(e, s))
        if isinstance(d, int): d = tm.Range(tm.num(d))
        v = tm.var(d, 0)
        return SymIter(v, Sym(tm.add(s, v), 'int'))
    B = tm.Opaque(('batches', s.id, e.id, p.id)); v = tm.var(B, 0)
    return SymIter(v, Sym(tm.add(s, tm.mul(p, v)), 'int'), ('batch', s, e, p))


# ------------------------------------------------------------------ library specific models
OVER = {}

def over(*names):
    def d(f):
        for n in names: OVER[n] = f
        return f
    return d


def copy_value(it, v, deep=True, memo=None):
    memo = {} if memo is None else memo
    v = it.simp(v)
    if isinstance(v, (T, Lst, Dct, Obj)) and v.oid in memo: return memo[v.oid]
    if isinstance(v, T):
        r = it.newT(it.td(v)); memo[v.oid] = r; return r
    if isinstance(v, Lst):
        r = it.mkL([]); memo[v.oid] = r
        it.heap[r.oid] = tuple(copy_value(it, x, deep, memo) if deep else x for x in it.items(v)); return r
    if isinstance(v, Gen): return Gen(v.v, v.cond, copy_value(it, v.elem, deep, memo), v.loop)
    if isinstance(v, Dct):
        r = it.mkD({}); memo[v.oid] = r
        it.heap[r.oid] = {k: copy_value(it, x, deep, memo) if deep else x for k, x in it.heap[v.oid].items()}; return r
    if isinstance(v, Obj):
        r = it.mkO(v.cls); memo[v.oid] = r
        it.heap[r.oid] = {k: copy_value(it, x, deep, memo) if deep else x for k, x in it.attrs(v).items()}; return r
    if isinstance(v, tuple): return tuple(copy_value(it, x, deep, memo) for x in v)
    if isinstance(v, Phi): return Phi(v.c, copy_value(it, v.a, deep, memo), copy_value(it, v.b, deep, memo))
    if isinstance(v, BoundM): return BoundM(copy_value(it, v.self_, deep, memo), v.f)
    return v


@over('copy.deepcopy')
def _deepcopy(it, args, kw): return copy_value(it, args[0])

@over('copy.copy')
def _copy(it, args, kw):
    v = it.simp(args[0])
    if isinstance(v, T): return it.newT(it.td(v))
    if isinstance(v, Lst): return it.mkL(it.items(v))
    if isinstance(v, Dct): return it.mkD(it.heap[v.oid])
    if isinstance(v, Obj):
        r = it.mkO(v.cls); it.heap[r.oid] = dict(it.attrs(v)); return r
    return v


@over('scipy.special.j1', 'scipy.special.jv')
def _j1(it, args, kw):
    x = args[-1]
    if len(args) == 2 and args[0] != 1: raise Unsupported('bessel order')
    td = it.to_td(x, 'numpy')
    return it.newT(td.repl(cells=td.map(lambda c: tm.fn('j1', c)), lib='numpy'))


@over('scipy.spatial.ConvexHull')
def _hull(it, args, kw):
    p = liftarr(it, args[0], 'numpy')
    t = it.as_term(p)
    return Opq(tm.uf('hull', t), 'hull', p)

def hull_attr(it, v, name):
    p = v.info; t = v.t
    dim = 3
    if isinstance(p, T) and it.td(p).ndim == 2 and isinstance(it.td(p).dims[1], int): dim = it.td(p).dims[1]
    if name == 'points': return p
    S = tm.Opaque(('facets', t.id)); f = tm.var(S, 0)
    def mk(n, dt, fnm, sp, vr):
        c = np.empty((1, n), dtype=object)
        for k in range(n): c[0, k] = tm.uf(fnm, tm.num(k), t, vr)
        return it.newT(TD((sp, n), (vr, None), c, dt, 'numpy'))
    if name == 'equations': return mk(dim + 1, 'f64', 'hull.eq', S, f)
    if name == 'simplices': return mk(dim, 'i64', 'hull.simplex', S, f)
    if name == 'neighbors': return mk(dim, 'i64', 'hull.neighbor', S, f)
    if name == 'vertices':
        Vs = tm.Opaque(('hullverts', t.id)); w = tm.var(Vs, 0)
        c = np.empty((1,), dtype=object); c[0] = tm.uf('hull.vertex', t, w)
        return it.newT(TD((Vs,), (w,), c, 'i64', 'numpy'))
    if name in ('volume', 'area'): return Sym(tm.uf('hull.' + name, t), 'float')
    return Opq(tm.uf('.' + name, t), 'opaque')


@over('scipy.spatial.HalfspaceIntersection')
def _hsi(it, args, kw):
    return Opq(tm.uf('halfspaces', *[it.as_term(a) for a in args]), 'opaque')


def arr_fn(name, shape):
    def f(it, args, kw):
        ts = []
        for a in args:
            a2 = it.simp(a)
            if isinstance(a2, (T, Lst, tuple)):
                try: ts.append(it.as_term(it.newT(it.to_td(a2, 'numpy')))); continue
                except (Unsupported, Conflict): pass
            ts.append(it.as_term(a))
        for k in sorted(kw): ts += [tm.uf('kw:' + k), it.as_term(kw[k])]
        c = np.empty(shape, dtype=object)
        for i in np.ndindex(shape): c[i] = tm.uf(name, *([tm.num(x) for x in i] + ts))
        return it.newT(TD(shape, (None,) * len(shape), c, 'f64', 'numpy'))
    return f
OVER['xfab.tools.form_b_mat'] = arr_fn('form_b_mat', (3, 3))
OVER['xfab.tools.cell_invert'] = arr_fn('cell_invert', (6,))
OVER['xfab.tools.u_to_euler'] = arr_fn('u_to_euler', (3,))
OVER['xfab.tools.form_a_mat'] = arr_fn('form_a_mat', (3, 3))

@over('xfab.tools.genhkl_all', 'xfab.tools.genhkl')
def _genhkl(it, args, kw):
    names = ['unit_cell', 'sintlmin', 'sintlmax', 'sgname', 'sgno', 'cell_choice', 'output_stl']
    vals = dict(zip(names, args)); vals.update(kw)
    ts = []
    for n in names:
        v = it.simp(vals.get(n))
        if n == 'unit_cell' and isinstance(v, (T, Lst, tuple)):
            ts.append(it.as_term(it.newT(it.to_td(v, 'numpy')))); continue
        ts.append(it.as_term(v))
    it.event('genhkl', vals)
    out = vals.get('output_stl')
    n = 3 if not out else 4
    key = tm.uf('genhkl', *ts)
    S = tm.Opaque(('hkl', key.id)); f = tm.var(S, 0)
    c = np.empty((1, n), dtype=object)
    for k in range(n): c[0, k] = tm.uf('hkl', tm.num(k), key, f)
    return it.newT(TD((S, n), (f, None), c, 'i64', 'numpy'))


@over('meshio.Mesh')
def _meshio_mesh(it, args, kw):
    pts = arg(args, kw, 0, 'points'); cells = arg(args, kw, 1, 'cells')
    p = it.simp(pts)
    if isinstance(p, (Lst, tuple)): p = it.newT(it.to_td(p, 'numpy'))
    o = it.mkO('meshio.Mesh', {'points': p, 'cells': cells})
    d = {}
    l = it.iter_list(it.simp(cells)) if not isinstance(it.simp(cells), Dct) else [(k, v) for k, v in it.heap[it.simp(cells).oid].items()]
    for c in l or []:
        c = it.simp(c)
        if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], str):
            v = it.simp(c[1])
            if isinstance(v, (Lst, tuple)):
                try: v = it.newT(it.to_td(v, 'numpy'))
                except (Unsupported, Conflict): pass
            d[c[0]] = v
    it.setattr_(o, 'cells_dict', it.mkD(d))
    for k in ('point_data', 'cell_data', 'field_data'): it.setattr_(o, k, kw.get(k, it.mkD({})))
    return o

@over('meshio.write_points_cells', 'meshio.write', 'meshio._helpers.write_points_cells')
def _meshio_write(it, args, kw):
    it.event('meshio.write', (args, kw)); return None

@over('meshio.read')
def _meshio_read(it, args, kw):
    it.event('meshio.read', args)
    return read_mesh(it, 'file', it.as_term(args[0]))

def read_mesh(it, nm, key):
    N = tm.Opaque((nm + 'nodes', key.id)); E = tm.Opaque((nm + 'elements', key.id))
    n, e = tm.var(N, 0), tm.var(E, 0)
    c = np.empty((1, 3), dtype=object)
    for k in range(3): c[0, k] = tm.uf(nm + '.coord', key, tm.num(k), n)
    d = np.empty((1, 4), dtype=object)
    for k in range(4): d[0, k] = tm.iatom(nm + '.enod%d' % k, key, e)
    pts = it.newT(TD((N, 3), (n, None), c, 'f64', 'numpy')); cells = it.newT(TD((E, 4), (e, None), d, 'i64', 'numpy'))
    o = it.mkO('meshio.Mesh', {'points': pts})
    it.setattr_(o, 'cells_dict', it.mkD({'tetra': cells}))
    it.setattr_(o, 'cells', it.mkL([('tetra', cells)]))
    return o

@over('dill.dump', 'pickle.dump')
def _dump(it, args, kw):
    it.event('dump', dict(obj=args[0], file=args[1] if len(args) > 1 else None)); return None

@over('dill.dumps', 'pickle.dumps')
def _dumps(it, args, kw):
    it.event('dump', dict(obj=args[0], file=None)); return Opq(tm.uf('dumps', it.as_term(args[0])), 'opaque')

@over('dill.load', 'pickle.load')
def _load(it, args, kw):
    it.event('load', args)
    f = it.simp(args[0])
    return Opq(tm.uf('load', it.as_term(f)), 'opaque')

@over('scipy.spatial.transform.Rotation.random')
def _rr(it, args, kw):
    it.event('rng', 'Rotation.random'); return it.unk('random rotation', *args)

@over('scipy.spatial.transform.Rotation.from_matrix', 'scipy.spatial.transform.Rotation.from_quat', 'scipy.spatial.transform.Rotation.from_rotvec', 'scipy.spatial.transform.Rotation.from_euler')
def _rot(it, args, kw):
    r = pure(it, 'Rotation', [x for x in args], kw); return r

@over('logging.getLogger')
def _logger(it, args, kw): return Opq(tm.uf('logger'), 'opaque')

@over('logging.info', 'logging.warning', 'logging.debug', 'logging.error')
def _log(it, args, kw): it.event('log', args); return None

@over('sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush')
def _sysw(it, args, kw): it.event('print', args); return None

def math_fn(name):
    def f(it, args, kw):
        def go(v):
            if isinstance(v, (int, float)):
                try: return getattr(math, name)(v)
                except ValueError: raise Unsupported('math domain')
            c = one_cell(it, v) if isinstance(v, T) else it.as_term(v)
            nm = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'fabs': 'abs'}.get(name, name)
            if name == 'radians': return Sym(tm.div(tm.mul(c, tm.num(math.pi)), tm.num(180)), 'float')
            if name == 'degrees': return Sym(tm.div(tm.mul(c, tm.num(180)), tm.num(math.pi)), 'float')
            if name == 'isnan': return it.pybool(tm.isnan(c))
            if name == 'isfinite': return it.pybool(tm.isfinite(c))
            if name == 'isinf': return it.pybool(tm.isinf(c))
            return Sym(tm.fn(nm, c), 'int' if name in ('floor', 'ceil', 'trunc') else 'float')
        return it.lift(go, args[0])
    return f
for _n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'trunc', 'acos', 'asin', 'atan', 'radians', 'degrees', 'fabs', 'isnan', 'isfinite', 'isinf'): OVER['math.' + _n] = math_fn(_n)
