"""C18: flux-proportional seeding."""
from contracts.util import *

CONTRACTS = ['flux', 'rejects']


def args(vc):
    n = vc.int('n', 1)
    N, st = vc.int('N', 0), vc.int('steps', 0)
    Q, q, _ = vc.arr('Q', (n,))
    return n, N, st, Q, q


def flux(vc):
    n, N, st, Q, q = args(vc)
    vc.st.assume(st <= n)
    b = T.bound_int('q')
    tot = T.mk_sum(n, b, z3.If(q(b) < 0, -q(b), q(b)))
    vc.st.assume(tot != 0)
    outs = vc.run('particle_track', 'flux_proportional_seeding', [Q, N, st])
    i, j = z3.Ints('i j')
    rng = [0 <= i, i < n]
    share = lambda k: z3.If(q(k) < 0, -q(k), q(k)) / tot * N
    b3 = T.bound_int('q')
    S = z3.Real('shares$')
    vc.prove('lemma: the shares sum to the total', vc.st, Z(T.mk_sum(n, b3, share(b3))) == N)
    # a symbol for the sum of the shares as such, equal to N by the lemma
    fl = T.mk_sum(n, b3, z3.ToInt(share(b3)), 'int')
    vc.prove('lemma: rounding down loses nothing extra', vc.st, z3.And(z3.ToReal(fl) <= N, N - z3.ToReal(fl) < n), [z3.Real('z$') == T.ZR(sumsym(n, b3, share(b3))), sumsym(n, b3, share(b3)) == N])
    hint = [z3.ToReal(fl) <= N, N - z3.ToReal(fl) < n]
    vc.no_raise(outs, extra=hint)
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s, hint)
        s = s.copy()
        s.pc += hint
        a = vc.val(s, v)
        vc.flag('integer counts', a.kind == 'i', a.kind)
        vc.prove('one count per time step', s, Z(a.shape[0]) == n)
        x = a.get((i,))
        vc.prove('counts are non-negative', s, Z(x) >= 0, rng)
        b2 = T.bound_int('q')
        sm = T.mk_sum(n, b2, Z(a.get((b2,))), 'int')
        vc.prove('counts sum to the requested total', s, Z(sm) == N)
        # if a step with an integral share got an extra particle, the shares would sum to less than the counts
        fr = lambda k: share(k) - z3.ToReal(z3.ToInt(share(k)))
        up = lambda k: z3.ToReal(Z(a.get((k,)))) - z3.ToReal(z3.ToInt(share(k)))
        vc.prove('a count is the share rounded down or one more', s, z3.Or(Z(x) == z3.ToInt(share(i)), Z(x) == z3.ToInt(share(i)) + 1), rng)
        hyp = rng + [fr(i) == 0, up(i) == 1]
        le = vc.sum_le('fractions against the other extra particles', s, n, fr, lambda k: up(k) - z3.If(k == i, z3.RealVal(1), z3.RealVal(0)), hyp)
        w1, f1 = vc.sum_split(n, [share, lambda k: -z3.ToReal(z3.ToInt(share(k)))])
        w2, f2 = vc.sum_split(n, [lambda k: z3.ToReal(Z(a.get((k,)))), lambda k: -z3.ToReal(z3.ToInt(share(k))), lambda k: -z3.If(k == i, z3.RealVal(1), z3.RealVal(0))])
        q0 = vc.q0()
        one = z3.RealVal(1)
        vc.prove('no extra particle on an integral share', [s.pc[-1], n >= 1] + hint + rng, False,
                 [le, f1, f2, Z(sm) == N, T.ZR(T.mk_sum(n, q0, share(q0))) == N])
        vc.prove('each count is less than one particle away from its share', s, z3.And(z3.ToReal(Z(x)) - share(i) < 1, share(i) - z3.ToReal(Z(x)) < 1), rng + [z3.Not(z3.And(fr(i) == 0, up(i) == 1)), z3.Or(up(i) == 0, up(i) == 1)])
        y = a.get((j,))
        fr = lambda k: share(k) - z3.ToReal(z3.ToInt(share(k)))
        vc.prove('extra particles go to the largest fractional shares', s, fr(i) >= fr(j),
                 rng + [0 <= j, j < n, Z(x) == z3.ToInt(share(i)) + 1, Z(y) == z3.ToInt(share(j))])
        w = vc.val(s, Q)
        vc.prove('discharge series unchanged', s, num_eq(w.get((i,)), q(i)), rng)


def sumsym(n, b, body):
    """the sum of body as a symbol of its own (no factoring)"""
    return T.mk_sum(n, b, body, 'real', False)


def rejects(vc):
    n, N, st, Q, q = args(vc)
    b = T.bound_int('q')
    tot = T.mk_sum(n, b, z3.If(q(b) < 0, -q(b), q(b)))
    vc.st.assume(z3.Or(st > n, tot == 0))
    outs = vc.run('particle_track', 'flux_proportional_seeding', [Q, N, st])
    ok = [o for o in outs if o[0] == 'raise' and o[2].exc == 'ValueError']
    vc.flag('raises ValueError', bool(ok))
    for k, s, v in outs:
        if not (k == 'raise' and v.exc == 'ValueError'):
            vc.prove('a short or zero series is rejected with ValueError', s, False)
