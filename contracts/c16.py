"""C16: nourishment time is the mean residence time per intermediate visit."""
from contracts.util import *
from contracts.c14 import inside
from contracts.c15 import cells, shape, caps

CONTRACTS = ['time', 'time_full', 'time_smoothed']


def totals(H, r, c):
    """number of intermediate visits of cell (r, c) and the time they took: half the step into it plus half the step out of it"""
    i, j = T.bound_int('i'), T.bound_int('j')
    m = z3.If(H['len'](i) >= 2, H['len'](i) - 2, z3.IntVal(0))        # entries 1 .. len-2
    here = z3.And(H['X'](i, j + 1) == r, H['Y'](i, j + 1) == c)
    dt = (H['T'](i, j + 1) - H['T'](i, j)) / 2 + (H['T'](i, j + 2) - H['T'](i, j + 1)) / 2
    n = T.mk_sum(H['n'], i, T.mk_sum(m, j, z3.If(here, z3.IntVal(1), z3.IntVal(0)), 'int'), 'int')
    t = T.mk_sum(H['n'], i, T.mk_sum(m, j, z3.If(here, dt, z3.RealVal(0))))
    return Z(n), T.ZR(t)


def setup(vc, sigma, clip):
    L, W = vc.int('L', 1), vc.int('W', 1)
    H = hist(vc)
    inside(vc, H, L, W)
    i, j = z3.Ints('i$o j$o')
    # travel times never decrease along a history (C08)
    T.REG.forall([i, j], z3.Implies(z3.And(0 <= j, j + 1 < H['len'](i)), H['T'](i, j) <= H['T'](i, j + 1)))
    outs = vc.run('particle_track', 'nourishment_time', [H['w'], (L, W), sigma, clip])
    vc.no_raise(outs)
    return L, W, H, outs


def time_full(vc):
    L, W, H, outs = setup(vc, F(0), F(100))
    (r, c, inr), _ = cells(vc, L, W)
    n, t = totals(H, r, c)
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        x = FF(a.get((r, c)))
        vc.cover('a visited cell', s, inr + [n > 0])
        shape(vc, s, a, L, W)
        vc.prove('NaN where there was no intermediate visit', s, isnan(x), inr + [n == 0])
        vc.prove('a visited cell holds the total time over the number of visits, NaN when that is zero', s,
                 z3.If(t == 0, isnan(x), z3.And(finite(x), R(x) * T.ZR(n) == t)), inr + [n > 0])
        same_hist(vc, s, H)


def time(vc):
    """any clip percentile: values are capped at one bound, attained or between cells"""
    clip = vc.real('clip', lambda x: z3.And(0 <= x, x <= 100))
    L, W, H, outs = setup(vc, F(0), F(clip))
    (r, c, in1), (r2, c2, in2) = cells(vc, L, W)
    (n1, t1), (n2, t2) = totals(H, r, c), totals(H, r2, c2)
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        x, y = FF(a.get((r, c))), FF(a.get((r2, c2)))
        shape(vc, s, a, L, W)
        vc.prove('NaN where there was no intermediate visit', s, isnan(x), in1 + [n1 == 0])
        vc.prove('values are finite, positive and at most the mean residence time', s,
                 z3.And(finite(x), R(x) > 0, R(x) * T.ZR(n1) <= t1), in1 + [z3.Not(isnan(x))])
        g, data, m, q = caps(s, clip)
        vc.prove('the requested percentile is used for clipping', s, z3.And(Z(T.band(T.bnot(q.nan), T.bnot(q.inf))), R(q) == clip), g)
        if len(data.shape) == 2:
            d = FF(data.get((r, c)))
            vc.prove('the percentile is taken over the mean residence times of all cells', s,
                     z3.And(Z(data.shape[0]) == L, Z(data.shape[1]) == W, finite(d), z3.If(n1 > 0, R(d) * T.ZR(n1) == t1, R(d) == 0)), g + in1)
        vc.prove('a value is the mean residence time or the requested percentile, whichever is smaller', s,
                 z3.And(R(x) <= R(m), z3.Or(R(x) * T.ZR(n1) == t1, R(x) == R(m))), g + in1 + [z3.Not(isnan(x))])
        vc.prove('NaN only where the mean residence time or the percentile is zero', s, z3.Or(t1 == 0, R(m) == 0), g + in1 + [n1 > 0, isnan(x)])
        vc.prove('a value below the mean residence time is the cap: no other value exceeds it', s,
                 R(y) <= R(x), in1 + in2 + [z3.Not(isnan(x)), z3.Not(isnan(y)), R(x) * T.ZR(n1) < t1])
        same_hist(vc, s, H)


def time_smoothed(vc):
    sigma = vc.real('sigma', lambda x: x > 0)
    clip = vc.real('clip', lambda x: z3.And(0 <= x, x <= 100))
    L, W, H, outs = setup(vc, F(sigma), F(clip))
    (r, c, in1), _ = cells(vc, L, W)
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        x = FF(a.get((r, c)))
        shape(vc, s, a, L, W)
        vc.prove('every value is NaN or finite and not negative', s, z3.Or(isnan(x), z3.And(finite(x), R(x) >= 0)), in1)
        same_hist(vc, s, H)
