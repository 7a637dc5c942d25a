"""C06: steepest descent takes a neighbour of greatest weight, ties broken by equal shares of one draw."""
from contracts.util import *

CONTRACTS = ['steep_descent', 'get_weight_steepest']


def adm(w, wn, k):
    """direction k (a neighbour) attains a positive greatest weight"""
    if k == 4:
        return z3.BoolVal(False)
    return z3.And(z3.Not(wn[k]), w[k] > 0, *[z3.Or(wn[m], w[m] <= w[k]) for m in range(9)])


def post(vc, s, v, w, wn, q):
    vc.cover('reachable', s)
    i = Z(v)
    a = [adm(w, wn, k) for k in range(9)]
    anyadm = z3.Or(*a)
    vc.prove('some direction or stay', s, z3.And(0 <= i, i < 9))
    vc.prove('without a positive greatest neighbour the particle stays', s, i == 4, [z3.Not(anyadm)])
    for k in range(9):
        if k != 4:
            vc.prove('direction %d only with the greatest weight' % k, s, a[k], [i == k])
    vc.prove('moves when a neighbour has the greatest positive weight', s, i != 4, [anyadm])
    ev = [e for e in s.events if e.kind in ('draw', 'randint')]
    vc.flag('at most one draw', len(ev) <= 1)
    # ties: equal shares of the drawing range
    if len(ev) == 1 and ev[0].kind == 'draw':
        e = ev[0]
        r, lo, hi = FF(e.payload['r']), FF(e.payload['lo']), FF(e.payload['hi'])
        m = z3.Real('m$max')
        cnt = [z3.If(a[k], 1, 0) for k in range(9)]
        tot = sum(cnt)
        before = 0
        ww = [z3.If(a[k], m, 0) for k in range(9)]
        hyp = [anyadm] + [z3.Implies(a[k], w[k] == m) for k in range(9)]
        acc = z3.RealVal(0)
        span = sum(ww[1:], ww[0])
        vc.prove('the drawing range spans the ties', s, z3.And(R(lo) == 0, R(hi) == span), hyp)
        for k in range(9):
            if k != 4:
                vc.prove('tied direction %d gets an equal share of the draws' % k, s, i == k,
                         hyp + [a[k], acc < R(r), R(r) < acc + m])
            acc = acc + ww[k]
    else:
        one = [z3.Implies(a[k], z3.And(*[z3.Not(a[m]) for m in range(9) if m != k])) for k in range(9)]
        vc.prove('without a draw there is no tie', s, z3.And(*one))
    for k in range(9):
        if k == 4:
            continue
        x = [FF(q((m,))) for m in range(9)]
        w2, n2 = [R(t) for t in x], [Z(t.nan) for t in x]
        vc.prove('later picks choose among the same directions (%d)' % k, s, a[k] == adm(w2, n2, k))


def steep_descent(vc):
    P, d, dn = vc.arr('w', (9,), nan=True)
    w, wn = [d(k) for k in range(9)], [dn(k) for k in range(9)]
    for k in range(9):
        vc.st.assume(z3.Or(wn[k], w[k] >= 0))
    outs = vc.run('lagrangian_walker', 'steep_descent', [P])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        post(vc, s, v, w, wn, vc.val(s, P).get)


def get_weight_steepest(vc):
    L, W = vc.int('L', 3), vc.int('W', 3)
    A, d, dn = vc.arr('wt', (L, W, 9), nan=True)
    i, j = vc.int('pi', 0), vc.int('pj', 0)
    vc.st.assume(i < L)
    vc.st.assume(j < W)
    w, wn = [d(i, j, k) for k in range(9)], [dn(i, j, k) for k in range(9)]
    for k in range(9):
        vc.st.assume(z3.Or(wn[k], w[k] >= 0))
    sd = z3.Bool('steepest')
    vc.st.assume(sd)
    P = vc.obj('Particles', {'weight': A, 'steepest_descent': sd})
    outs = vc.run('lagrangian_walker', 'get_weight', [P, (i, j)])
    vc.no_raise(outs)
    a, b, c = z3.Ints('a b c')
    for _, s, v in vc.returns(outs):
        q = vc.val(s, vc.val(s, P).attrs['weight'])
        post(vc, s, v, w, wn, lambda ix: q.get((i, j) + ix))
        vc.prove('other cells keep their weights', s, eqF(q.get((a, b, c)), F(d(a, b, c), dn(a, b, c))),
                 [0 <= a, a < L, 0 <= b, b < W, 0 <= c, c < 9, z3.Or(a != i, b != j)])
