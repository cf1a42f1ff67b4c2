"""C22 (structure factors)."""
from ..lib import *
from .formulas import shaped
import math
pi = math.pi


def crystal_world(atoms, disp):
    """atoms: list of (type, adp_type); disp: type -> 'sym' | None (listed without) | missing"""
    w = World(); it = w.it
    log = {'read': 0}
    S = Base('symops')
    recs, objs = [], []
    for n, (ty, at) in enumerate(atoms):
        pos = [atom('pos%d_%d' % (n, i)) for i in range(3)]
        occ = atom('occ%d' % n, pos=True); mul = atom('multi%d' % n, pos=True)
        adp = [(0.01 * E(atom('adp%d_%d' % (n, i), pos=i < 3))).t for i in range(6)] if at == 'Uani' else [(0.01 * E(atom('adp%d' % n, pos=True))).t]
        recs.append((ty, at, pos, occ, mul, adp))
        objs.append(it.mkO(None, {'atomtype': ty, 'adp_type': at, 'pos': it.mkL([Sym(x, 'float') for x in pos]), 'occ': Sym(occ, 'float'), 'symmulti': Sym(mul, 'float'),
                                  'adp': it.mkL([Sym(x, 'float') for x in adp]) if at == 'Uani' else Sym(adp[0], 'float') if at else 0.0, 'label': 'A%d' % n}))
    def fp(ty): return [atom('fp_' + ty), atom('fpp_' + ty)]
    dd = {t: (it.mkL([Sym(x, 'float') for x in fp(t)]) if v == 'sym' else None) for t, v in disp.items()}
    def build(it_, args, kw):
        al = it.mkO(None, {'atom': it.mkL([]), 'dispersion': it.mkD({}), 'cell': it.mkL([]), 'sgname': None})
        o = it.mkO(None, {'atomlist': al})
        def read(it__, a, k):
            log['read'] += 1; log['args'] = (a, k)
            it.setattr_(al, 'atom', it.mkL(objs)); it.setattr_(al, 'dispersion', it.mkD(dd))
            return None
        it.exts['model.CIFread'] = read
        it.setattr_(o, 'CIFread', Ext('model.CIFread'))
        return o
    it.exts['xfab.structure.build_atomlist'] = build
    it.exts['xrd_simulator.utils._cif_open'] = lambda i, a, k: Opq(tm.uf('cif', it.as_term(a[0] if a else k['cif_file'])), 'opaque')
    rot = w.t('symrot', S, 3, 3); trans = w.t('symtrans', S, 3)
    def sg(i, a, k):
        log['sg'] = k.get('sgname', a[1] if len(a) > 1 else None)
        return it.mkO(None, {'nsymop': it.dimval(tm.length(S)), 'rot': rot, 'trans': trans})
    it.exts['xfab.sg.sg'] = sg
    types = sorted({a[0] for a in atoms})
    it.extvals['xfab.atomlib.formfactor'] = it.mkD({t: it.mkL([Sym(atom('ff_%s_%d' % (t, i)), 'float') for i in range(9)]) for t in types})
    cell = [(3 + E(atom('cell_%d' % i, pos=True))).t for i in range(3)] + [(60 + 30 * E(atom('cell_%d' % i, pos=True))).t for i in range(3, 6)]
    def cellstar(i, a, k):
        uc = it.simp(a[0] if a else k['unit_cell'])
        ts = [it.as_term(x) for x in it.iter_list(uc)] if not isinstance(uc, T) else list(it.td(uc).cells.flat)
        return it.mkL([Sym(tm.uf('cellstar', tm.num(j), *ts), 'float') for j in range(6)])
    it.exts['xfab.tools.cell_invert'] = cellstar
    w.cell = cell; w.log = log; w.recs = recs; w.S = S
    def want(h):
        a, b, cc = [E(x) for x in cell[:3]]; ca, cb, cg = [cos(E(x) * pi / 180) for x in cell[3:]]
        H, K, L = h
        part1 = H * H / a ** 2 * (1 - ca ** 2) + K * K / b ** 2 * (1 - cb ** 2) + L * L / cc ** 2 * (1 - cg ** 2) \
            + 2 * H * K * (ca * cb - cg) / (a * b) + 2 * H * L * (ca * cg - cb) / (a * cc) + 2 * K * L * (cb * cg - ca) / (b * cc)
        part2 = 1 - (ca ** 2 + cb ** 2 + cg ** 2) + 2 * ca * cb * cg
        s2 = part1 / (4 * part2)
        v = var(S); R = [[E(atom('symrot_%d_%d' % (i, j), v)) for j in range(3)] for i in range(3)]
        tv = [E(atom('symtrans_%d' % i, v)) for i in range(3)]
        n = E(tm.length(S)); re, im = E(0), E(0)
        for ty, at, pos, occ, mul, adp in recs:
            ff = [E(atom('ff_%s_%d' % (ty, i))) for i in range(9)]
            f = ff[8]
            for i in range(4): f = f + ff[i] * exp(-ff[4 + i] * s2)
            x = vadd(mv(R, [E(p) for p in pos]), tv)
            ph = 2 * pi * dot(h, x)
            if at == 'Uiso': dw = exp(-8 * pi ** 2 * E(adp[0]) * s2)
            elif at == 'Uani':
                u = [E(q) for q in adp]; U = [[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]]
                st = [E(tm.uf('cellstar', tm.num(j), *cell)) for j in range(6)]
                B = [[2 * pi ** 2 * st[i] * st[j] * U[i][j] for j in range(3)] for i in range(3)]
                g = mv(tr(R), h); dw = exp(-dot(g, mv(B, g)))
            else: dw = E(1)
            p, pp = [E(q) for q in fp(ty)] if disp.get(ty) == 'sym' else (E(0), E(0))
            pre = E(occ) * E(mul) / n * dw
            re = re + E(tm.red('sum', S, v, (pre * (cos(ph) * (f + p) - sin(ph) * pp)).t))
            im = im + E(tm.red('sum', S, v, (pre * (sin(ph) * (f + p) + cos(ph) * pp)).t))
        return re, im
    w.want = want
    return w


@check('C22')
def c22(c):
    H = Base('hkl')
    cases = [('isotropic with dispersion', [('SI', 'Uiso')], {'SI': 'sym'}),
             ('anisotropic with dispersion', [('O', 'Uani')], {'O': 'sym'}),
             ('no displacement, no dispersion', [('C', None)], {}),
             ('dispersion listed as unknown', [('C', 'Uiso')], {'C': None}),
             ('isotropic, anisotropic and rigid atoms mixed', [('SI', 'Uiso'), ('O', 'Uani'), ('C', None)], {'SI': 'sym', 'O': 'sym'}),
             ('anisotropic first', [('O', 'Uani'), ('SI', 'Uiso')], {'SI': 'sym', 'O': None}),
             ('same element on two sites', [('O', 'Uani'), ('O', 'Uiso'), ('O', 'Uani')], {'O': 'sym'})]
    if c.thorough:
        k = [None, 'Uiso', 'Uani']
        cases += [('%s %s' % (a, b), [('SI', a), ('O', b)], {'SI': 'sym', 'O': 'sym'}) for a in k for b in k]
        cases += [('%s %s %s' % (a, b, d), [('SI', a), ('O', b), ('SI', d)], {'SI': None, 'O': 'sym'}) for a in k for b in k for d in k]
    for tag, atoms, disp in cases:
        for hd in (H, 1, 2):
            if hd != H and tag != cases[4][0] and not c.thorough: continue
            with c.scope('%s, %s' % (tag, 'any list' if hd is H else '%d reflections' % hd)):
                w = crystal_world(atoms, disp); it = w.it
                h = tensor('hkl', (hd, 3), dtype='i64')
                uc = it.mkL([Sym(x, 'float') for x in w.cell])
                r = it.to_td(w.run(w.func('structure_factors', 'compute_structure_factors_batch'), it.newT(h), uc, 'P1', 'file.cif')); c.use(w)
                c.holds('structure file is read', w.log['read'] == 1, '', 'read %d times' % w.log['read'])
                c.holds('symmetry operations are those of the space group', w.log.get('sg') == 'P1', '', repr(w.log.get('sg')), unk='sg' not in w.log)
                if not shaped(c, 'real and imaginary part per reflection', r, (hd, 2)): continue
                at = {h.axes[0]: E(r.axes[0])} if hd is H else {}
                for i in range(r.cells.shape[0]):
                    re, im = w.want([E(h.cells[i, j]).at(at) for j in range(3)])
                    c.eq('real part [%d]' % i, r.cells[i, 0], re, where=src(r.cells[i, 0]))
                    c.eq('imaginary part [%d]' % i, r.cells[i, 1], im, where=src(r.cells[i, 1]))
    with c.scope('phase'):
        # a phase asks for exactly its own list, cell, space group and file
        from .diffract import structure_factor_model
        w = World(); it = w.it; log = []
        structure_factor_model(w, log)
        ph = w.phases(1)[0]
        w.meth(ph, '_setup_diffracting_planes', w.s('wavelength', pos=True), w.s('bmin'), w.s('bmax')); c.use(w)
        c.holds('one computation per list', len(log) == 1, '', '%d computations' % len(log))
        for q in ('unit_cell', 'sgname', 'path_to_cif_file'):
            c.eq('computed with its own %s' % q, it.as_term(log[0][1][q]), it.as_term(w.attr(ph, q)))
