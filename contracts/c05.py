"""C05: one uniform draw picks a direction in exact proportion to the weights; seeding picks listed locations uniformly."""
from pyvc.vc import *

CONTRACTS = ['random_pick', 'random_pick_seed', 'get_weight_random']


def zero_nan(d, dn):
    return [z3.If(dn(k), 0, d(k)) for k in range(9)]


def weights(vc):
    P, d, dn = vc.arr('w', (9,), nan=True)
    for k in range(9):
        vc.st.assume(z3.Or(dn(k), d(k) >= 0))
    w = zero_nan(d, dn)
    return P, w


def one_draw(vc, s, name='one draw'):
    ev = [e for e in s.events if e.kind in ('draw', 'randint')]
    return ev


def pick_post(vc, s, val, w):
    cum = [0]
    for x in w:
        cum.append(cum[-1] + x)
    tot = cum[-1]
    i = val if isz(val) else z3.IntVal(val)
    vc.cover('reachable', s)
    ev = one_draw(vc, s)
    vc.flag('at most one draw', len(ev) <= 1)
    vc.prove('no positive weight: stays put', s, i == 4, [tot <= 0])
    vc.prove('picks one of the nine directions', s, z3.And(0 <= i, i < 9))
    if len(ev) != 1:
        vc.prove('without a draw nothing has weight', s, tot <= 0)
        return
    e = ev[0]
    r, lo, hi = e.payload['r'], T.toF(e.payload['lo']), T.toF(e.payload['hi'])
    vc.prove('draw happens when some weight is positive', s, e.guard, [tot > 0])
    vc.prove('the drawing range is proper', s, z3.And(Z(bnot(lo.nan)), Z(bnot(hi.nan)), Z(lo.v) < Z(hi.v)), [tot > 0])
    span = z3.Real('span')
    for k in range(9):
        # r in the k-th interval, whose share of the range is w_k / tot
        x = (Z(r.v) - Z(lo.v)) * tot
        a, b = cum[k] * (Z(hi.v) - Z(lo.v)), cum[k + 1] * (Z(hi.v) - Z(lo.v))
        if T.same(lo.v, 0) and T.check(list(s.pc) + [tot > 0, Z(hi.v) != tot], 4000) == 'unsat':
            x, a, b = Z(r.v), cum[k], cum[k + 1]
        vc.prove('direction %d gets the draws of its share' % k, s, i == k, [tot > 0, a < x, x < b])
        vc.prove('direction %d is never chosen with zero weight' % k, s, i != k, [tot > 0, w[k] == 0])


def random_pick(vc):
    P, w = weights(vc)
    outs = vc.run('lagrangian_walker', 'random_pick', [P])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        pick_post(vc, s, v, w)
        q = vc.val(s, P)
        for k in range(9):
            x = T.toF(q.get((k,)))
            vc.prove('weights only have their NaN replaced by 0 (%d)' % k, s, z3.And(Z(bnot(x.nan)), Z(bnot(x.inf)), T.ZR(x.v) == w[k]))


def random_pick_seed(vc):
    n = vc.int('n', 1)
    d = vc.decl('ch', 1, z3.IntSort())
    l = vc.I.alloc(vc.st, LVal(n, fn=lambda i: d(Z(i))))
    outs = vc.run('lagrangian_walker', 'random_pick_seed', [l])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s)
        ev = one_draw(vc, s)
        vc.flag('exactly one draw', len(ev) == 1)
        if len(ev) != 1:
            continue
        e = ev[0]
        j = z3.Int('j')
        i = Z(v)
        if e.kind == 'randint':
            r, lo, hi = Z(e.payload['r']), Z(e.payload['lo']), Z(e.payload['hi'])
            vc.prove('range has one value per listed location', s, hi - lo == n)
            vc.prove('value j picks location j', s, i == d(j), [0 <= j, j < n, r == lo + j])
        else:
            r, lo, hi = e.payload['r'], T.toF(e.payload['lo']), T.toF(e.payload['hi'])
            vc.prove('the drawing range is proper', s, T.ZR(lo.v) < T.ZR(hi.v))
            x, h = T.ZR(r.v) - T.ZR(lo.v), T.ZR(hi.v) - T.ZR(lo.v)
            vc.prove('the drawing range has length n or 1', s, z3.Or(h == n, h == 1))
            jr = z3.ToReal(j)
            vc.prove('location j gets the j-th n-th of the draws', s, i == d(j), [0 <= j, j < n, h == n, jr < x, x < jr + 1])
            vc.prove('location j gets the j-th n-th of the draws (unit range)', s, i == d(j), [0 <= j, j < n, h == 1, h != n, jr < x * n, x * n < jr + 1])
        vc.prove('always a listed location', s, z3.Or(*[i == d(t) for t in index_terms(i, d)]) if index_terms(i, d) else False)
        for t in index_terms(i, d)[:1]:
            vc.prove('index in range', s, z3.And(0 <= t, t < n))
        q = vc.val(s, l)
        vc.prove('list unchanged', s, z3.And(Z(q.len) == n, Z(q.at(j)) == d(j)), [0 <= j, j < n])


def index_terms(t, d):
    return [a.arg(0) for a in T.apps_of(t, {d.name()})]


def get_weight_random(vc):
    """get_weight in random mode is random_pick on the weights of the cell (NaNs there become 0, nothing else changes)"""
    L, W = vc.int('L', 3), vc.int('W', 3)
    A, d, dn = vc.arr('wt', (L, W, 9), nan=True)
    i, j = vc.int('pi', 0), vc.int('pj', 0)
    vc.st.assume(i < L)
    vc.st.assume(j < W)
    w = []
    for k in range(9):
        vc.st.assume(z3.Or(dn(i, j, k), d(i, j, k) >= 0))
        w.append(z3.If(dn(i, j, k), 0, d(i, j, k)))
    sd = z3.Bool('steepest')
    vc.st.assume(z3.Not(sd))
    P = vc.obj('Particles', {'weight': A, 'steepest_descent': sd})
    outs = vc.run('lagrangian_walker', 'get_weight', [P, (i, j)])
    vc.no_raise(outs)
    a, b, c = z3.Ints('a b c')
    for _, s, v in vc.returns(outs):
        pick_post(vc, s, v, w)
        o = vc.val(s, P)
        q = vc.val(s, o.attrs['weight'])
        x = T.toF(q.get((a, b, c)))
        rng = [0 <= a, a < L, 0 <= b, b < W, 0 <= c, c < 9]
        vc.prove('other cells keep their weights', s, z3.And(Z(T.beq(x.nan, dn(a, b, c))), z3.Or(dn(a, b, c), T.ZR(x.v) == d(a, b, c))), rng + [z3.Or(a != i, b != j)])
        vc.prove('at the cell only NaN becomes 0', s, z3.Or(dn(a, b, c), z3.And(Z(bnot(x.nan)), T.ZR(x.v) == d(a, b, c))), rng)
