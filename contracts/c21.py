"""C21"""
from contracts.util import *
from pyvc import libnp
from pyvc.loops import Oblig
from pyvc.values import Unsupported

CONTRACTS = ['chunk', 'systemwide', 'localized']


def chunk(vc):
    H = hist(vc, ('depth',), minlen=0)
    r0, r1, c0, c1 = vc.int('r0', 0), vc.int('r1', 0), vc.int('c0', 0), vc.int('c1', 0)
    outs = vc.run('spatial', '_find_common_indices_info', [H['w'], (r0, r1), (c0, c1)])
    vc.no_raise(outs)
    i, j = T.bound_int('i'), T.bound_int('j')
    X, Y, ln, n = H['X'], H['Y'], H['len'], H['n']
    q = T.bound_int('q')
    cond = z3.And(ln(q) > 0, X(q, 0) >= r0, X(q, 0) <= r1, Y(q, 0) >= c0, Y(q, 0) <= c1)
    cnt, sel = T.mk_filter(n, q, cond)
    p = T.bound_int('p')
    for _, s, v in vc.returns(outs):
        d = vc.val(s, v)
        vc.flag('the recorded fields', isinstance(d, DVal) and sorted(d.d) == sorted(H['cells']))
        fn = {'xinds': X, 'yinds': Y, 'travel_times': H['T'], 'depth': H['E']['depth']}
        for k, f in fn.items():
            l = vc.val(s, d.d[k])
            vc.prove('%s: one entry for every particle that starts in the chunk' % k, s, Z(l.len) == Z(cnt))
            e = vc.val(s, l.at(p))
            rng = [0 <= p, p < Z(cnt)]
            vc.prove('%s: lengths' % k, s, Z(e.len) == ln(sel(p)), rng)
            vc.prove('%s: entries' % k, s, entry_eq(e.at(j), f, sel(p), j), rng + [0 <= j, j < ln(sel(p))])
        same_hist(vc, s, H)


def layout(vc, fname, whole):
    L, W = vc.int('L', 1), vc.int('W', 1)
    res = vc.int('res', 1)
    I = vc.I
    EL, _, _ = vc.arr('elev', (L, W), 'f')
    CT, ct, _ = vc.arr('ct', (L, W), 'i')
    num = vc.decl('N', 4, z3.IntSort())
    exp = vc.decl('EXP', 5)
    ks = z3.Ints('k0 k1 k2 k3')
    T.REG.forall(ks, num(*ks) >= 0)
    w = vc.I.alloc(vc.st, DVal({'ghost': 1}))

    def find(I, st, fr):
        (r0, r1), (c0, c1) = I.content(st, fr['xind_range']), I.content(st, fr['yind_range'])
        return I.alloc(st, DVal({'r0': r0, 'r1': r1, 'c0': c0, 'c1': c1}))

    def exposure(I, st, fr):
        d = I.content(st, fr['walk_data']).d
        g = I.content(st, fr['region_of_interest'])
        a, b = T.bound_int('a'), T.bound_int('b')
        k = [Z(d[x]) for x in ('r0', 'r1', 'c0', 'c1')]
        inr = [0 <= a, a < L, 0 <= b, b < W]
        want = ct(a, b) == 1
        if not whole:
            want = z3.And(want, k[0] <= a, a < k[1], k[2] <= b, b < k[3])
        I.obligs.append(Oblig('callee-pre', 'exposure_time: the region', list(st.pc) + inr, Z(g.get((a, b))) == z3.If(want, z3.IntVal(1), z3.IntVal(0))))
        return I.alloc(st, LVal(num(*k), fn=lambda i: F(exp(*k, Z(i)))))
    I.contracts['spatial._find_common_indices_info'] = find
    I.contracts['particle_track.exposure_time'] = exposure
    outs = vc.run('spatial', fname, [w, EL, CT, res])
    vc.no_raise(outs)
    # the chunk grid: n_y by n_x chunks of `res` cells, the last row and column of chunks take the remainder
    ny, nx = libnp._idiv(L, res), libnp._idiv(W, res)
    r, c, j = T.bound_int('r'), T.bound_int('c'), T.bound_int('j')
    ks = (r * res, z3.If(r == ny - 1, L, (r + 1) * res), c * res, z3.If(c == nx - 1, W, (c + 1) * res))
    a, b = T.bound_int('a'), T.bound_int('b')

    def some(r0, r1, c0, c1):
        """the chunk has a cell of type 1"""
        return 0 < T.mk_count(r1 - r0, a, 0 < T.mk_count(c1 - c0, b, ct(r0 + a, c0 + b) == 1))
    ins = [0 <= r, r < ny, 0 <= c, c < nx]
    last = (r == ny - 1, c == nx - 1)
    for _, s, v in vc.returns(outs):
        l = vc.val(s, v)
        if not isinstance(l, LVal):
            raise Unsupported('result is not one list')
        vc.prove('one entry per chunk', s, Z(l.len) == Z(ny * nx))
        e = l.at(r * nx + c)
        empty, full = [z3.Not(some(*ks))], [some(*ks)]
        for g, x in (e.alts if isinstance(e, Choice) else [(True, e)]):
            x = vc.val(s, x)
            if isinstance(x, LVal):
                vc.prove('no list where the chunk has no region cell', s, z3.Not(Z(g)), ins + empty)
                vc.prove('exposure times of the particles starting in the chunk: number', s, Z(x.len) == num(*ks), ins + full + [Z(g)], split=last)
                vc.prove('exposure times of the particles starting in the chunk: values', s, entry(x.at(j), exp(*ks, j)), ins + full + [Z(g), 0 <= j, j < num(*ks)], split=last)
            else:
                vc.prove('NaN where the chunk has no region cell', s, z3.And(isnan(x), z3.Not(some(*ks))), ins + [Z(g)])


def entry(e, x):
    return z3.And(finite(e), R(e) == x)


def systemwide(vc):
    layout(vc, 'systemwide', True)


def localized(vc):
    layout(vc, 'localized', False)
