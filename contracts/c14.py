"""C14: exposure time is the time-weighted overlap with the region."""
from contracts.util import *

CONTRACTS = ['exposure', 'exposure_bool', 'exposure_float']


def region(vc, kind='i'):
    """a binary region: (array, flag of cell (r, c) as a z3 condition, array entry is as given)"""
    L, W = vc.int('L', 1), vc.int('W', 1)
    RG, rg, _ = vc.arr('region', (L, W), kind)
    if kind == 'b':
        return L, W, RG, rg, lambda r, c, x: Z(x) == rg(r, c)
    a, b = z3.Ints('a$r b$r')
    T.REG.forall([a, b], z3.Or(rg(a, b) == 0, rg(a, b) == 1))
    return L, W, RG, (lambda r, c: rg(r, c) == 1), lambda r, c, x: num_eq(x, rg(r, c))


def inside(vc, H, L, W):
    a, b = z3.Ints('a$g b$g')
    T.REG.forall([a, b], z3.And(0 <= H['X'](a, b), H['X'](a, b) < L, 0 <= H['Y'](a, b), H['Y'](a, b) < W))


def overlap(H, flag, i):
    """time-weighted overlap of step q (from entry q to q+1) of particle i: whole, half or nothing"""
    def term(q):
        f0, f1 = flag(H['X'](i, q), H['Y'](i, q)), flag(H['X'](i, q + 1), H['Y'](i, q + 1))
        dt = H['T'](i, q + 1) - H['T'](i, q)
        return z3.If(z3.And(f0, f1), dt, z3.If(z3.Or(f0, f1), dt / 2, z3.RealVal(0)))
    return term


def total(term, m):
    """sum of term over the first m steps"""
    q = T.bound_int('q')
    return T.ZR(T.mk_sum(m, q, term(q)))


def exposure(vc, kind='i'):
    L, W, RG, flag, same = region(vc, kind)
    H = hist(vc)
    inside(vc, H, L, W)
    outs = vc.run('particle_track', 'exposure_time', [H['w'], RG])
    vc.no_raise(outs)
    i = T.bound_int('i')
    n, ln, TT = H['n'], H['len'], H['T']
    rng = [0 <= i, i < n]
    term, other = overlap(H, flag, i), overlap(H, lambda r, c: z3.Not(flag(r, c)), i)
    a, b = z3.Ints('a b')
    for _, s, v in vc.returns(outs):
        l = vc.val(s, v)
        vc.cover('a particle', s, rng + [ln(i) > 1])
        vc.prove('one value per particle', s, Z(l.len) == n)
        e = FF(l.at(i))
        S = total(term, ln(i) - 1)
        vc.prove('the exposure is the sum of the overlaps of the steps', s, z3.And(finite(e), R(e) == S), rng)
        # consequences, about the sum that the obligation above identifies with the result
        up = lambda m: z3.And(total(term, m) >= 0, total(term, m) <= TT(i, m) - TT(i, 0))
        order = lambda m: TT(i, m + 1) >= TT(i, m)
        mm = T.bound_int('m')
        vc.prove('lemma (base): between 0 and the elapsed time', s, up(z3.IntVal(0)))
        vc.prove('lemma (step): between 0 and the elapsed time', s, up(mm + 1), [mm >= 0, up(mm), order(mm)])
        both = vc.induct('exposures to the region and to its complement add up to the elapsed time', s,
                         lambda m: total(term, m) + total(other, m) == TT(i, m) - TT(i, 0))
        vc.prove('with the complement it adds up to the total travel time', s, S + total(other, ln(i) - 1) == TT(i, ln(i) - 1) - TT(i, 0), rng + [both(ln(i) - 1)])
        rr = vc.val(s, RG)
        vc.prove('the region is not modified', s, same(a, b, rr.get((a, b))), [0 <= a, a < L, 0 <= b, b < W])
        same_hist(vc, s, H)


def exposure_bool(vc):
    exposure(vc, 'b')


def exposure_float(vc):
    exposure(vc, 'f')
