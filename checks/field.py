"""Value of rendered frames as terms: a lane that gives scatter deposits, convolutions, batches and loops their meaning.

The engine derives, once and for a peak table of any length, what the returned frames hold at a position; the terms
contain accumulators (the rows a scatter adds), convolutions and recurrences.  Rules about frames are relations between
the values these terms take for related tables (`Lane` semantics as everywhere: an interpretation of the inputs)."""
import math
from engine import terms as tm, vals as V
from engine.terms import CLane, P, Space, Term
from engine.vals import T, TD


class Inexact(Exception):
    """a term has no meaning of its own in the interpretation"""


FINFO = {'f64': dict(tiny=2.2250738585072014e-308, smallest_normal=2.2250738585072014e-308, eps=2.220446049250313e-16, max=1.7976931348623157e308, min=-1.7976931348623157e308),
         'f32': dict(tiny=1.1754943508222875e-38, smallest_normal=1.1754943508222875e-38, eps=1.1920928955078125e-07, max=3.4028234663852886e38, min=-3.4028234663852886e38)}


def whole(x):
    if isinstance(x, tuple) and not isinstance(x, P): x = x[0]
    if isinstance(x, complex):
        if x != x or abs(x.imag) > 1e-9 or math.isinf(x.real) or abs(x.real - round(x.real)) > 1e-6: raise Inexact('index %r' % (x,))
        return int(round(x.real))
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    raise Inexact('index %r' % (x,))


def machine(t):
    """a closed term that only states a fact of the machine (memory)"""
    if t.fv or t.unk: return False
    names = {str(x.args[0]) for x in tm.walk(t) if x.op == 'u'}
    facts = {n for n in names if n.split('.')[0] in ('psutil', 'os', 'resource', 'shutil') or n.startswith('torch.cuda')}
    return bool(facts) and all(n in facts or n.startswith(('op', '.')) for n in names) and not any(x.op in ('atom', 'batom', 'choice') for x in tm.walk(t))


class FLane(CLane):
    """sizes: number of points of base spaces by name; table: {atom name: f(points) -> number}; values: {term: number}"""
    def __init__(self, it, seed=0, sizes=None, table=None, values=None, choices=None, outer=1.0, given=(), limit=400000):
        CLane.__init__(self, seed, 0.0)
        self.mode = 0
        self.it = it; self.sizes = sizes or {}; self.table = table or {}; self.choices = choices or {}
        self.values = {t.id: complex(v) for t, v in (values or {}).items()}
        self.enum = {}; self.scat = {}; self.imgs = {}
        self.dep = {e.data['n']: e for e in it.events if e.kind == 'deposit'}
        self.steps = {e.data['lv']: e for e in it.events if e.kind == 'loopstep'}
        self.conds = {}
        for e in it.events:
            if e.kind == 'loopcond' and e.loops: self.conds.setdefault(e.loops[-1][0], e)
        self.owner = {}
        for e in self.steps.values():
            for m, a, b in e.data['carried']: self.owner[m] = e
        self.given = {(t.id, p) for t, p in given}      # conditions known to hold
        self.outer = outer           # facts about the machine (free memory): any positive number
        self.work = 0; self.limit = limit

    # ---- spaces
    def npts(self, sp): raise Inexact('size of %s' % sp)

    def points(self, sp, env=None):
        if isinstance(sp, int): return range(sp)
        env = env or {}
        k = (sp.uid, tuple((v.id, env.get(v.id)) for v in sorted(sp.hfv, key=lambda v: v.id)))
        r = self.enum.get(k)
        if r is None: r = self.enum[k] = self._points(sp, env)
        return r

    def _points(self, sp, env):
        if sp.kind == 'range': return range(max(0, whole(self.nv(sp.info, self._restrict(sp.info, env)))))
        if sp.kind == 'base' or sp.nm in self.sizes:
            if sp.nm not in self.sizes: raise Inexact('size of %s' % sp)
            return range(self.sizes[sp.nm])
        if sp.kind == 'perm': return range(len(self.points(sp.parents[0], env)))
        if sp.kind == 'slice':
            lo, hi = self.bounds(sp, env)
            return range(max(0, hi - lo))
        if sp.kind == 'prod':
            out = [()]
            for p in sp.parents: out = [o + (q,) for o in out for q in self.points(p, env)]
            return [P(('p',) + o) for o in out]
        if sp.kind == 'concat': return [P(('c', i, q)) for i, p in enumerate(sp.parents) for q in self.points(p, env)]
        if sp.kind == 'filter': return range(len(self.members(sp, env)))
        if sp.kind == 'opaque' and sp in getattr(self.it, 'uniq', {}):
            return range(len(self.distinct(sp, env)))
        raise Inexact('points of %s' % sp)

    def distinct(self, sp, env):
        td, u = self.it.uniq[sp]
        seen = {}
        for p in self.points(td.dims[0], env):
            v = self.nv(td.flat()[0], {td.axes[0].id: p})[0]
            seen.setdefault(round(v.real, 9), p)
        return [seen[k] for k in sorted(seen)]

    def bounds(self, sp, env):
        n = len(self.points(sp.parents[0], env))
        lo, hi = sp.info
        def at(x, d):
            if x is None: return d
            x = whole(self.nv(x, self._restrict(x, env)))
            return min(max(x + n if x < 0 else x, 0), n)
        return at(lo, 0), at(hi, n)

    def members(self, sp, env):
        k = ('m', sp.uid, tuple((v.id, env.get(v.id)) for v in sorted(sp.hfv, key=lambda v: v.id)))
        r = self.enum.get(k)
        if r is None:
            out = [()]
            for p in sp.parents: out = [o + (q,) for o in out for q in self.points(p, env)]
            vs = [tm.var(p, 0 if sp.parents.index(p) == j else j) for j, p in enumerate(sp.parents)]
            r = []
            for o in out:
                e2 = {**env, **{v.id: q for v, q in zip(vs, o)}}
                if self.bv(sp.mask, self._restrict(sp.mask, e2)): r.append(o)
            self.enum[k] = r; self.enum[('i',) + k] = {o: i for i, o in enumerate(r)}
        return r

    def place(self, sp, p, env):
        """position of a point of a space"""
        if isinstance(p, int): return p
        if isinstance(p, P) and p and p[0] == 'p':
            n = 0
            for x, par in zip(p[1:], sp.parents): n = n * len(self.points(par, env)) + self.place(par, x, env)
            return n
        if isinstance(p, P) and p and p[0] == 'c':
            return sum(len(self.points(q, env)) for q in sp.parents[:p[1]]) + self.place(sp.parents[p[1]], p[2], env)
        raise Inexact('position of %r' % (p,))

    # ---- terms
    def ev(self, t, env):
        v = self.values.get(t.id)
        if v is not None: return (v,)
        self.work += 1
        if self.work > 40 * self.limit: raise Inexact('too large')
        return CLane.ev(self, t, env)

    def e_var(self, t, env):
        p = env.get(t.id)
        if p is None: raise Inexact('free %s (%s)' % (tm.show(t, 2), getattr(self, 'why', '')))
        return p

    def e_atom(self, t, env):
        f = self.table.get(t.args[0])
        if f is not None:
            at = [self.ev(a, env) if isinstance(a, Term) else a for a in t.args[2:]]
            if getattr(f, 'numbers', False): return (complex(f(*[p[0].real if isinstance(p, tuple) else p for p in at])),)
            return (complex(f(*[p if isinstance(p, P) else whole(p) for p in at])),)
        if str(t.args[0]).startswith('finfo.'):
            k = 'f32' if 'f32' in str(t.args[2]) or 'float32' in str(t.args[2]) else 'f64'
            v = FINFO[k].get(t.args[0][6:])
            if v is None: raise Inexact(str(t.args[0]))
            return (complex(v),)
        return CLane.e_atom(self, t, env)

    def e_choice(self, t, env):
        f = self.table.get(t.args[0])
        if f is not None: return (complex(f(*[self.ev(a, env) for a in t.args[2:]])),)
        raise Inexact('choice ' + str(t.args[0]))

    def e_batom(self, t, env):
        n = str(t.args[0])
        if n in self.table: return bool(self.table[n](*[self.nv(a, env)[0].real for a in t.args[1:]]))
        if n.startswith('in') and n[2:].isdigit() and len(t.args) == 2:
            sp = tm._by_uid(int(n[2:]))
            if sp.kind != 'slice': raise Inexact('within ' + sp.kind)
            v = t.args[1]; q = self.ev(v, env)
            q = self.place(sp.parents[0], q, env) if isinstance(q, P) else whole(q)
            lo, hi = self.bounds(sp, env)
            return lo <= q < hi
        if n == 'mub': return bool(self.nv(t.args[1], env)[0].real)
        for k, v in self.choices.items():
            if n.startswith(k): return v
        if n.startswith('exc@') and not t.fv: return False
        raise Inexact('condition ' + n)

    def e_iatom(self, t, env):
        n = str(t.args[0])
        if n in self.table: return self.table[n](*[p if isinstance(p, P) else whole(p) for p in [self.ev(a, env) for a in t.args[1:]]])
        if n.startswith('rng_'): return self.table['rng'](n, *[self.ev(a, env) for a in t.args[1:]])
        if n == 'last': return whole(self.nv(t.args[1], env)) - 1
        if n == 'shift': return whole(self.nv(t.args[1], env))
        if n.startswith('nth') and len(t.args) == 2: return whole(self.nv(t.args[1], env))
        if n.startswith('at') and len(t.args) == 2 and isinstance(t.args[1], Term) and t.args[1].op == 'var':      # elements paired by position
            sp = tm._by_uid(int(n[2:]))
            pts = self.points(sp, env); oth = self.points(t.args[1].args[0], env)
            if len(pts) not in (1, len(oth)): raise Inexact('sizes differ')
            return pts[self.place(t.args[1].args[0], self.ev(t.args[1], env), env) if len(pts) > 1 else 0]
        if n == 'uniq':
            u = t.args[2]; p = self.ev(u, env)
            for sp in getattr(self.it, 'uniq', {}):
                if sp.nm and u.op == 'var' and u.args[0] is sp: return self.distinct(sp, env)[p]
        raise Inexact('index ' + n)

    def hashnum(self, k): raise Inexact('uninterpreted %s' % (str(k[:2])[:60],))

    def _state_pred(self, op, v, env, fv=()):
        x = v[0]
        if 0 < abs(x) < 1e-200 and x.imag == 0:           # far below any rounding: a number of its own
            if op in ('lt0', 'le0'): return x.real < 0
            if op in ('eq0', 'ne'): return op == 'ne'
        return CLane._state_pred(self, op, v, env, fv)

    def e_div(self, t, env):
        a, b = self.nv(t.args[0], env)[0], self.nv(t.args[1], env)[0]
        if b != 0: return (a / b,)
        if a != a or a == 0: return (complex(math.nan),)
        return (complex(math.copysign(math.inf, a.real) * math.copysign(1, b.real)),)

    def e_fn(self, t, env):
        name = t.args[0]
        if name in tm._CF or name in ('floor', 'ceil', 'round', 'trunc', 'atan2'): return CLane.e_fn(self, t, env)
        vs = [self.nv(a, env)[0] for a in t.args[1:]]
        if name in ('scipy.special.j1', 'j1') and len(vs) == 1: return (complex(bessel1(vs[0].real)),)
        raise Inexact('function ' + str(name))

    def e_red(self, t, env):
        name, v, body = t.args
        vals = []
        for p in self.points(v.args[0], env):
            e2 = dict(env); e2[v.id] = p
            vals.append(self.nv(body, self._restrict(body, e2))[0])
        if name == 'sum': return (sum(vals, complex(0)),)
        if name == 'prod':
            r = complex(1)
            for x in vals: r *= x
            return (r,)
        if name in ('max', 'min'):
            if not vals: raise Inexact('max of nothing')
            return (complex((max if name == 'max' else min)(x.real for x in vals)),)
        raise Inexact('reduction ' + name)

    def e_bred(self, t, env):
        name, v, body = t.args
        for p in self.points(v.args[0], env):
            e2 = dict(env); e2[v.id] = p
            if self.bv(body, self._restrict(body, e2)) == (name == 'any'): return name == 'any'
        return name != 'any'

    def e_up(self, t, env):
        F, k, a = t.args
        q = self.ev(a, env)
        if F.kind == 'slice': return self.bounds(F, env)[0] + whole(q)
        if F.kind == 'perm': return self.sorted(F, env)[whole(q)]
        if F.kind == 'filter':
            m = self.members(F, env)
            if not 0 <= whole(q) < len(m): raise Inexact('row outside')
            return m[whole(q)][k]
        raise Inexact('up of ' + F.kind)

    def sorted(self, F, env):
        """points of the space a permutation orders"""
        ps = list(self.points(F.parents[0], env))
        if F.key[-1] == 'reversed': return ps[::-1]
        if not F.info: raise Inexact('permutation')
        t, desc = F.info
        v, c = t.args[1], t.args[-1]
        k = {p: self.nv(c, self._restrict(c, {**env, v.id: p}))[0].real for p in ps}
        return sorted(ps, key=lambda p: -k[p] if desc else k[p])

    def e_down(self, t, env):
        F = t.args[0]; q = self.ev(t.args[1], env)
        if F.kind == 'slice': return self.place(F.parents[0], q, env) - self.bounds(F, env)[0]
        if F.kind == 'perm': return self.sorted(F, env).index(q)
        if F.kind == 'filter':
            self.members(F, env)
            k = ('i', 'm', F.uid, tuple((v.id, env.get(v.id)) for v in sorted(F.hfv, key=lambda v: v.id)))
            o = q[1:] if isinstance(q, P) and q[0] == 'p' else (q,)
            if tuple(o) not in self.enum[k]: raise Inexact('no such row')
            return self.enum[k][tuple(o)]
        raise Inexact('down of ' + F.kind)

    def e_idx(self, t, env):
        v = t.args[0]; p = self.ev(v, env)
        if isinstance(p, P): p = self.place(v.args[0], p, env)
        return (complex(whole(p)),)

    def e_len(self, t, env): return (complex(len(self.points(t.args[0], env))),)

    def e_proj(self, t, env):
        k, S, a = t.args
        q = self.ev(a, env)
        if isinstance(q, P) and q[0] == 'p': return q[1 + k]
        q = whole(q)
        ns = [len(self.points(p, env)) for p in S.parents]
        for n in ns[k + 1:]: q //= n
        return q % ns[k]

    def e_tens(self, t, env): raise Inexact('tensor')

    def e_sel(self, t, env):
        p = whole(self.ev(t.args[0], env))
        if not 0 <= p < len(t.args) - 1: raise Inexact('selection %d' % p)
        return self.ev(t.args[1 + p], env)

    def e_ite(self, t, env):
        c, a, b = t.args
        s = self.deposits(a)
        if s and any(c is x or c is tm.not_(x) for n in s for x, p in self.dep[n].pc):
            return self.ev(a, env)            # the rows of a deposit carry the conditions of the scatter themselves
        s = self.deposits(b)
        if s and any(c is x or c is tm.not_(x) for n in s for x, p in self.dep[n].pc): return self.ev(b, env)
        return CLane.e_ite(self, t, env)

    def deposits(self, t):
        """accumulations a content consists of (not those its values are computed from)"""
        r = self.imgs.get(('d', t.id))
        if r is None:
            r = set(); todo = [t]; seen = set()
            while todo:
                x = todo.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x.op == 'u':
                    n = str(x.args[0])
                    if n.startswith(('accum', '?put')): r.add(int(n[5 if n[0] == 'a' else 4:])); todo.append(x.args[1])
                    elif n == '?recurrence': todo += x.args[1:3]
                elif x.op == 'ite': todo += x.args[1:]
                elif x.op == 'let': todo.append(x.args[0])
            self.imgs[('d', t.id)] = r
        return r

    # ---- facts of the engine
    def e_u(self, t, env):
        n = str(t.args[0])
        if n.startswith('accum'):
            pos, s = self.added(t, int(n[5:]), env)
            return (self.nv(t.args[1], env)[0] + s.get(pos, 0),)
        if n.startswith('?put'):
            pos, s = self.added(t, int(n[4:]), env)
            return (s[pos] if pos in s else self.nv(t.args[1], env)[0],)
        if n == 'conv2d':
            x, w, pad, i, j = t.args[1:]
            X = self.image(x, env); W = self.image(w, env); p = whole(self.nv(pad, env))
            i, j = whole(self.ev(i, env)), whole(self.ev(j, env))
            return (sum((W[a, b] * X.get((i + a - p, j + b - p), 0) for a, b in W), complex(0)),)
        if n == '?merge of differently sized tensors':
            c, a, b = t.args[1:4]
            k = a if self.bv(c, env) else b
            if k.op != 'tens' or len(k.args) != 2 + k.args[0]: raise Inexact('merged tensors')
            e2 = dict(env)
            for v, at in zip(k.args[1:1 + k.args[0]], t.args[4:]): e2[v.id] = self.ev(at, env)
            return self.ev(k.args[-1], self._restrict(k.args[-1], e2))
        if n == 'cumsum':
            a, at = t.args[1:]
            v, c = a.args[1], a.args[-1]
            at = self.ev(at, env)
            return (sum((self.nv(c, self._restrict(c, {**env, v.id: p}))[0] for p in self.points(v.args[0], env) if self.place(v.args[0], p, env) <= self.place(v.args[0], at, env)), complex(0)),)
        if n == '?recurrence': return self.after(t.args[1], env)
        if n.split('.')[-1] == 'j1' and len(t.args) == 2: return (complex(bessel1(self.nv(t.args[1], env)[0].real)),)
        if machine(t): return (complex(self.outer),)
        raise Inexact('uninterpreted ' + n)

    def added(self, t, n, env):
        e = self.dep[n]; k = e.data['td'].ndim; b = e.data['born']
        if len(t.args) != 2 + k + len(b): raise Inexact('accumulator without position')
        return tuple(whole(self.nv(a, env)) for a in t.args[2:2 + k]), self.scatter(e, {v.id: self.ev(a, env) for v, a in zip(b, t.args[2 + k:])})

    def image(self, x, env):
        if x.op != 'tens' or x.args[0] != 2 or len(x.args) != 4: raise Inexact('image')
        k = (x.id, tuple((v.id, env.get(v.id)) for v in sorted(x.fv, key=lambda v: v.id)))
        r = self.imgs.get(k)
        if r is None:
            a, b, c = x.args[1:]
            r = {}
            for p in self.points(a.args[0], env):
                for q in self.points(b.args[0], env):
                    v = self.nv(c, self._restrict(c, {**env, a.id: p, b.id: q}))[0]
                    if v != 0: r[self.place(a.args[0], p, env), self.place(b.args[0], q, env)] = v
            self.imgs[k] = r
        return r

    def after(self, t, env):
        """value after the loop of a carried value that one iteration turns into t"""
        e = next((e for e in self.steps.values() for m, x, b in e.data['carried'] if b is t), None)
        if e is None: raise Inexact('recurrence of an unknown loop')
        m = [m for m, x, b in e.data['carried'] if b is t]
        *_, last = self.states(e.data['lv'], env)
        return self.nv(m[0], last)

    def states(self, lv, env):
        """environments of the iterations of a while loop, and the one it ends with"""
        e = self.steps.get(lv); c = self.conds.get(lv)
        if e is None or c is None and e.data['kind'] == 'while': raise Inexact('loop')
        car = e.data['carried']
        cur = dict(env)
        for m, a, b in car:
            try: cur[m.id] = self.nv(a, self._restrict(a, env))
            except Inexact as x: self.why = x
        if any(k != 'break' for k, _ in e.data['exits']) : raise Inexact('loop exits')
        if e.data['kind'] != 'while':
            if e.data['exits']: raise Inexact('loop exits')
            for p in self.turns(lv, e.data['kind'], env):
                cur[lv.id] = p
                yield cur
                nx = dict(cur)
                for m, a, b in car:
                    try: nx[m.id] = self.nv(b, self._restrict(b, cur))
                    except Inexact as x: self.why = x; nx.pop(m.id, None)
                cur = nx
            yield cur
            return
        for k in range(600):
            cond = c.data[0]
            if not self.bv(cond, self._restrict(cond, cur)): yield cur; return
            yield cur
            nx = dict(cur)
            for m, a, b in car:
                try: nx[m.id] = self.nv(b, self._restrict(b, cur))
                except Inexact: nx.pop(m.id, None)
            left = any(self.bv(x, self._restrict(x, cur)) for _, x in e.data['exits'])
            cur = nx
            if left: yield cur; return
        raise Inexact('loop does not end')

    def iterations(self, loops, env, upto=None):
        """environments of the iterations of nested loops"""
        if not loops: yield env; return
        lv, kind, line = loops[0]
        if lv is not None and lv.id in env:
            yield from self.iterations(loops[1:], env); return
        if kind == 'while':
            st = list(self.states(lv, env))
            e = self.steps[lv]
            n = len(st) - 1
            for k in range(n): yield from self.iterations(loops[1:], {**st[k], lv.id: k})
            return
        for p in self.turns(lv, kind, env): yield from self.iterations(loops[1:], {**env, lv.id: p})

    def turns(self, lv, kind, env):
        if isinstance(kind, tuple) and kind[0] == 'batch':
            s, e, p = [self.nv(x, self._restrict(x, env))[0].real for x in kind[1:]]
            return range(max(0, math.ceil((e - s) / p)))
        return self.points(lv.args[0], env)

    def scatter(self, e, at=None):
        """{position: value added} of a deposit; at: the iteration its target belongs to"""
        at = at or {}
        key = (id(e),) + tuple(sorted(at.items(), key=lambda kv: kv[0]))
        r = self.scat.get(key)
        if r is None:
            r = {}
            for env in self.iterations(list(e.loops), dict(at)):
                if any((t.id, p) not in self.given and self.bv(t, self._restrict(t, env)) != p for t, p in e.pc): continue
                if e.data['how'] == 'put':
                    for pos, v in self.rows(e, env): r[pos] = v
                elif e.data['how'] == 'augadd':          # equal positions of one statement are written once
                    for pos, v in dict(self.rows(e, env)).items(): r[pos] = r.get(pos, 0) + v
                else:
                    for pos, v in self.rows(e, env): r[pos] = r.get(pos, 0) + v
            self.scat[key] = r
        return r

    def rows(self, e, env):
        it = self.it; d = e.data; td = d['td']
        if d['how'] not in ('index_put_', 'add.at', 'augadd', 'put'): raise Inexact('deposit by %s' % d['how'])
        key = d['key']
        if isinstance(key, V.Lst if hasattr(V, 'Lst') else ()): key = tuple(it.iter_list(key))
        key = [it.simp(k) for k in (key if isinstance(key, tuple) else (key,))]
        val = it.to_td(it.simp(d['val']), td.lib)
        if any(k is None or k is Ellipsis for k in key): raise Inexact('key')
        key += [slice(None)] * (td.ndim - len(key))
        arrs = []; out = []         # result axes: ('arr', broadcast position) or ('sl', dim)
        comp = []
        nb = 0
        for j, k in enumerate(key):
            if isinstance(k, T):
                kd = it.td(k)
                if kd.dtype == 'b': raise Inexact('boolean key')
                comp.append(('a', kd)); nb = max(nb, kd.ndim)
            elif isinstance(k, slice):
                lo = 0 if k.start is None else whole(self.nv(it.as_term(k.start), self._restrict(it.as_term(k.start), env)))
                n = len(self.points(td.dims[j], env))
                hi = n if k.stop is None else whole(self.nv(it.as_term(k.stop), self._restrict(it.as_term(k.stop), env)))
                if k.step is not None: raise Inexact('strided key')
                lo, hi = [min(max(x + n if x < 0 else x, 0), n) for x in (lo, hi)]
                comp.append(('s', lo, hi))
            else: comp.append(('i', it.as_term(k)))
        # broadcast dims of the arrays
        B = []
        for q in range(nb):
            sp = 1; ax = None
            for c in comp:
                if c[0] == 'a' and c[1].ndim >= nb - q:
                    dd = c[1].dims[c[1].ndim - nb + q]
                    if not (isinstance(dd, int) and dd == 1): sp = dd
            if sp == 1 and val.ndim >= nb - q: pass
            B.append(sp)
        pos = [j for j, c in enumerate(comp) if c[0] == 'a']
        if pos and pos != list(range(pos[0], pos[0] + len(pos))): raise Inexact('split index arrays')
        axes = []                   # (points, kind, dim)
        for j, c in enumerate(comp):
            if c[0] == 'a' and j == pos[0]: axes += [(list(self.points(sp, env)), 'b', q) for q, sp in enumerate(B)]
            elif c[0] == 's': axes.append((list(range(c[2] - c[1])), 's', j))
        combos = [()]
        for a in axes: combos = [o + (p,) for o in combos for p in a[0]]
        self.work += len(combos)
        if self.work > self.limit * 10: raise Inexact('too large')
        for o in combos:
            at = [None] * td.ndim; bp = [None] * nb
            for (ps, kd, q), p in zip(axes, o):
                if kd == 'b': bp[q] = p
                else: at[q] = comp[q][1] + p
            for j, c in enumerate(comp):
                if c[0] == 'i': at[j] = whole(self.nv(c[1], self._restrict(c[1], env)))
                elif c[0] == 'a': at[j] = whole(self.cell(c[1], bp[nb - c[1].ndim:] if c[1].ndim else [], env))
            n = [len(self.points(x, env)) for x in td.dims]
            for j in range(td.ndim):
                if at[j] < 0: at[j] += n[j]
                if not 0 <= at[j] < n[j]: raise Outside(e, j, at[j])
            yield tuple(at), self.cell(val, list(o)[len(o) - val.ndim:] if val.ndim else [], env)

    def cell(self, td, pts, env):
        """number a tensor holds at points of its dims"""
        e2 = dict(env); ix = []
        for d, a, p in zip(td.dims, td.axes, pts):
            if a is not None: e2[a.id] = p; ix.append(0)
            else: ix.append(0 if d == 1 else whole(p) if not isinstance(p, P) else p)
        c = td.cells[tuple(ix)]
        return self.nv(c, self._restrict(c, e2))[0]

    def frames(self, td):
        """{(frame, row, column): value} of returned frames"""
        out = {}
        combos = [()]
        for d in td.dims: combos = [o + (p,) for o in combos for p in self.points(d, {})]
        for o in combos:
            v = self.cell(td, list(o), {})
            out[o] = v
        return out


class Outside(Exception):
    def __init__(self, e, j, k): Exception.__init__(self, 'index %d along dim %d' % (k, j)); self.e = e


def bessel1(x):
    """Bessel function J1 by its integral"""
    n = 200
    return sum(math.cos(math.pi * (k + 0.5) / n - x * math.sin(math.pi * (k + 0.5) / n)) for k in range(n)) / n
