"""C15: nourishment area is the normalised visit count of every cell."""
from contracts.util import *
from contracts.c14 import inside
from pyvc.values import Unsupported

CONTRACTS = ['area', 'area_full', 'area_smoothed']


def count(H, r, c):
    """recorded entries at cell (r, c): all particles, all entries of their histories, each once"""
    i, j = T.bound_int('i'), T.bound_int('j')
    inner = T.mk_sum(H['len'](i), j, z3.If(z3.And(H['X'](i, j) == r, H['Y'](i, j) == c), z3.IntVal(1), z3.IntVal(0)), 'int')
    return Z(T.mk_sum(H['n'], i, inner, 'int'))


def cells(vc, L, W):
    out = []
    for t in 'ab':
        r, c = T.bound_int('r'), T.bound_int('c')
        out.append((r, c, [0 <= r, r < L, 0 <= c, c < W]))
    return out


def setup(vc, sigma, clip):
    L, W = vc.int('L', 1), vc.int('W', 1)
    H = hist(vc)
    inside(vc, H, L, W)
    outs = vc.run('particle_track', 'nourishment_area', [H['w'], (L, W), sigma, clip])
    vc.no_raise(outs)
    return L, W, H, outs


def shape(vc, s, a, L, W):
    vc.flag('two dimensions', len(a.shape) == 2)
    vc.prove('the result has the raster shape', s, z3.And(Z(a.shape[0]) == L, Z(a.shape[1]) == W))


def caps(s, clip):
    """the percentile taken for clipping: (condition that it was taken, data, value, level)"""
    ev = [e for e in s.events if e.kind == 'percentile']
    if len(ev) != 1:
        raise Unsupported('%d percentiles taken' % len(ev))
    g = ev[0].guard
    return [] if g is True else [Z(g)], ev[0].payload['data'], ev[0].payload['m'], ev[0].payload['q']


def area(vc):
    clip = vc.real('clip', lambda x: z3.And(0 <= x, x <= 100))
    L, W, H, outs = setup(vc, F(0), F(clip))
    (r, c, in1), (r2, c2, in2) = cells(vc, L, W)
    n1, n2 = count(H, r, c), count(H, r2, c2)
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        vc.cover('a visited cell', s, in1 + [n1 > 0])
        shape(vc, s, a, L, W)
        x, y = FF(a.get((r, c))), FF(a.get((r2, c2)))
        vc.prove('a cell never visited is NaN', s, isnan(x), in1 + [n1 == 0])
        vc.prove('every other value is finite and in (0, 1]', s, z3.And(finite(x), R(x) > 0, R(x) <= 1), in1 + [z3.Not(isnan(x))])
        vc.prove('a visited cell is NaN only when every cell is', s, isnan(y), in1 + in2 + [n1 > 0, isnan(x)])
        g, data, m, q = caps(s, clip)
        vc.prove('the requested percentile is used for clipping', s, z3.And(Z(T.band(T.bnot(q.nan), T.bnot(q.inf))), R(q) == clip), g)
        if len(data.shape) == 2:
            d, d2 = FF(data.get((r, c))), FF(data.get((r2, c2)))
            vc.prove('the percentile is taken over the visit counts of all cells', s,
                     z3.And(Z(data.shape[0]) == L, Z(data.shape[1]) == W, finite(d), z3.Or(R(d) == T.ZR(n1), R(d) * T.ZR(n2) == R(d2) * T.ZR(n1))), g + in1 + in2)
        vc.prove('NaN everywhere when the percentile is zero', s, isnan(x), g + in1 + [finite(m), R(m) == 0])
        vc.prove('a visited cell is NaN only when the percentile is zero', s, z3.And(finite(m), R(m) == 0), g + in1 + [n1 > 0, isnan(x)])
        vc.prove('cells visited more often never score lower', s, R(x) <= R(y), in1 + in2 + [n1 <= n2, z3.Not(isnan(x)), z3.Not(isnan(y))])
        same_hist(vc, s, H)


def area_full(vc):
    """clip = 100: nothing is capped"""
    L, W, H, outs = setup(vc, F(0), F(100))
    (r, c, in1), (rm, cm, inm) = cells(vc, L, W)
    n1, top = count(H, r, c), count(H, rm, cm)
    a_, b_ = T.bound_int('p'), T.bound_int('p')
    T.REG.forall([a_, b_], z3.Implies(z3.And(0 <= a_, a_ < L, 0 <= b_, b_ < W), count(H, a_, b_) <= top))
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        x = FF(a.get((r, c)))
        vc.cover('a visited cell', s, in1 + inm + [n1 > 0])
        shape(vc, s, a, L, W)
        vc.prove('NaN exactly in the cells never visited', s, isnan(x) == (n1 == 0), in1 + inm)
        vc.prove('number of visits divided by the maximum over all cells', s, z3.And(finite(x), R(x) * T.ZR(top) == T.ZR(n1)), in1 + inm + [n1 > 0])
        same_hist(vc, s, H)


def area_smoothed(vc):
    sigma = vc.real('sigma', lambda x: x > 0)
    clip = vc.real('clip', lambda x: z3.And(0 <= x, x <= 100))
    L, W, H, outs = setup(vc, F(sigma), F(clip))
    (r, c, in1), _ = cells(vc, L, W)
    for _, s, v in vc.returns(outs):
        a = vc.val(s, v)
        x = FF(a.get((r, c)))
        vc.cover('a value', s, in1 + [z3.Not(isnan(x))])
        shape(vc, s, a, L, W)
        vc.prove('every value is NaN or in [0, 1]', s, z3.Or(isnan(x), z3.And(finite(x), R(x) >= 0, R(x) <= 1)), in1)
        same_hist(vc, s, H)
