"""C17: state queries return each particle's entry at the asked step or time."""
from contracts.util import *

CONTRACTS = ['by_iteration', 'by_iteration_extra', 'last', 'by_time', 'by_time_extra']


def fields(vc, s, v, H, extra):
    """the returned lists: (name, list, history variable)"""
    t = vc.val(s, v)
    vc.flag('a tuple of %d' % (4 if extra else 3), isinstance(t, tuple) and len(t) == (4 if extra else 3))
    out = [('xinds', vc.val(s, t[0]), H['X']), ('yinds', vc.val(s, t[1]), H['Y']), ('travel_times', vc.val(s, t[2]), H['T'])]
    if extra:
        d = vc.val(s, t[3])
        vc.flag('the tracked variables', isinstance(d, DVal) and sorted(d.d) == sorted(extra))
        out += [(e, vc.val(s, d.d[e]), H['E'][e]) for e in extra]
    return out


def query_iteration(vc, extra, arg=None):
    H = hist(vc, extra)
    it = vc.int('iteration') if arg is None else arg
    outs = vc.run('routines', 'get_state', [H['w'], it])
    p = T.bound_int('p')
    n, ln = H['n'], H['len']
    rng = [0 <= p, p < n]
    i = Z(it)
    at = z3.If(z3.And(i >= 0, i < ln(p)), i, z3.If(z3.And(i < 0, i + ln(p) >= 0), i + ln(p), ln(p) - 1))
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        vc.cover('a particle', s, rng)
        for nm, l, d in fields(vc, s, v, H, extra):
            vc.prove('%s: one entry per particle' % nm, s, Z(l.len) == n)
            vc.prove('%s: the entry of that iteration, the last one when the history is shorter' % nm, s, entry_eq(l.at(p), d, p, at), rng)
        same_hist(vc, s, H)


def by_iteration(vc):
    query_iteration(vc, ())


def by_iteration_extra(vc):
    query_iteration(vc, ('depth', 'speed'))


def last(vc):
    query_iteration(vc, ('depth',), -1)


def query_time(vc, extra):
    H = hist(vc, extra)
    t = vc.real('target_time')
    outs = vc.run('routines', 'get_time_state', [H['w'], F(t)])
    p, r = T.bound_int('p'), T.bound_int('r')
    n, ln, TT = H['n'], H['len'], H['T']
    rng = [0 <= p, p < n]
    dist = lambda j: z3.If(TT(p, j) >= t, TT(p, j) - t, t - TT(p, j))
    vc.no_raise(outs)
    # nearest(p): the nearest entry, the earliest on ties (it exists, the history is not empty)
    wit = vc.decl('nearest', 1, z3.IntSort())
    T.REG.forall([p], z3.And(0 <= wit(p), wit(p) < ln(p)))
    T.REG.forall([p, r], z3.Implies(z3.And(0 <= r, r < ln(p)), z3.And(dist(wit(p)) <= dist(r), z3.Implies(r < wit(p), dist(wit(p)) < dist(r)))))
    for _, s, v in vc.returns(outs):
        vc.cover('a particle', s, rng)
        for nm, l, d in fields(vc, s, v, H, extra):
            vc.prove('%s: one entry per particle' % nm, s, Z(l.len) == n)
            vc.prove('%s: the entry nearest in time' % nm, s, entry_eq(l.at(p), d, p, wit(p)), rng + [dist(wit(p)) >= 0])
        same_hist(vc, s, H)


def by_time(vc):
    query_time(vc, ())


def by_time_extra(vc):
    query_time(vc, ('depth', 'speed'))
