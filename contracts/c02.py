"""C02: particles next to an edge cell are stopped; check_for_boundary."""
from contracts.util import *

from contracts import stepper as SP
from contracts import iteration as IT

CONTRACTS = ['boundary', 'stepper', 'run_iteration', 'run_iteration_target']


def stepper(vc):
    SP.prove_stepper(vc, ('edge',))


def near_edge(ct, L, W, r, c):
    """an edge cell among the cell (r, c) and its neighbours inside the grid"""
    return z3.Or(*[z3.And(0 <= r + a, r + a < L, 0 <= c + b, c + b < W, ct(r + a, c + b) == -1) for a in (-1, 0, 1) for b in (-1, 0, 1)])


def boundary(vc):
    L, W = vc.int('L', 1), vc.int('W', 1)
    CT, ct, _ = vc.arr('ct', (L, W), 'i')
    n = vc.int('n', 0)
    N, nw, _ = vc.arr('new', (n, 2), 'i')
    r, c = vc.decl('curr', 1, z3.IntSort()), vc.decl('curc', 1, z3.IntSort())
    k = z3.Int('k$p')
    T.REG.forall([k], z3.And(0 <= r(k), r(k) < L, 0 <= c(k), c(k) < W))
    cur = vc.I.alloc(vc.st, LVal(n, fn=lambda i: LVal(None, items=[r(Z(i)), c(Z(i))])))
    outs = vc.run('lagrangian_walker', 'check_for_boundary', [N, cur, CT])
    vc.no_raise(outs)
    i = z3.Int('i')
    rng = [0 <= i, i < n]
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s, rng)
        a = vc.val(s, v)
        vc.prove('one row per particle', s, z3.And(Z(a.shape[0]) == n, Z(a.shape[1]) == 2))
        edge = near_edge(ct, L, W, r(i), c(i))
        vc.prove('next to an edge: stays', s, z3.And(Z(a.get((i, 0))) == r(i), Z(a.get((i, 1))) == c(i)), rng + [edge])
        vc.prove('elsewhere: the new location is kept', s, z3.And(Z(a.get((i, 0))) == nw(i, 0), Z(a.get((i, 1))) == nw(i, 1)), rng + [z3.Not(edge)])
        l = vc.val(s, cur)
        e = vc.val(s, l.at(i))
        vc.prove('current locations unchanged', s, z3.And(Z(l.len) == n, Z(e.at(0)) == r(i), Z(e.at(1)) == c(i)), rng)


def run_iteration(vc):
    IT.prove_plain(vc, ('edge',))


def run_iteration_target(vc):
    IT.prove_target(vc, ('edge',), ('stage',), False)
