"""C01: particles stay on the grid and move one D8 cell at a time."""
from contracts.util import *
from contracts import stepper as SP
from contracts import iteration as IT
from contracts import seeding as SD

CONTRACTS = ['picks_random', 'picks_steepest', 'stepper', 'new_index', 'tables', 'border_weights', 'run_iteration', 'seed_exact', 'seed_random', 'run_iteration_target']


def picks(vc, steep):
    """the abstract contract of get_weight used by the callers"""
    L, W = vc.int('L', 3), vc.int('W', 3)
    A, d, dn = vc.arr('wt', (L, W, 9), nan=True)
    i, j = vc.int('pi', 0), vc.int('pj', 0)
    vc.st.assume(i < L)
    vc.st.assume(j < W)
    for k in range(9):
        vc.st.assume(z3.Or(dn(i, j, k), d(i, j, k) >= 0))
    sd = z3.Bool('steepest')
    vc.st.assume(sd if steep else z3.Not(sd))
    P = vc.obj('Particles', {'weight': A, 'steepest_descent': sd})
    outs = vc.run('lagrangian_walker', 'get_weight', [P, (i, j)])
    vc.no_raise(outs)
    a, b, c = z3.Ints('a b c')
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s)
        k = Z(v)
        vc.prove('one of the nine directions', s, z3.And(0 <= k, k < 9))
        vc.prove('a direction other than staying has positive weight', s, z3.Or(k == 4, *[z3.And(k == m, z3.Not(dn(i, j, m)), d(i, j, m) > 0) for m in range(9)]))
        q = vc.val(s, vc.val(s, P).attrs['weight'])
        vc.prove('weights keep their shape', s, z3.And(Z(q.shape[0]) == L, Z(q.shape[1]) == W, Z(q.shape[2]) == 9))
        x = FF(q.get((a, b, c)))
        rng = [0 <= a, a < L, 0 <= b, b < W, 0 <= c, c < 9]
        vc.prove('other cells keep their weights', s, eqF(x, F(d(a, b, c), dn(a, b, c))), rng + [z3.Or(a != i, b != j)])
        for m in range(9):
            x = FF(q.get((i, j, m)))
            vc.prove('no weight is raised (%d)' % m, s, z3.Or(isnan(x), z3.And(finite(x), R(x) >= 0, z3.Or(R(x) == 0, z3.And(z3.Not(dn(i, j, m)), R(x) == d(i, j, m))))))


def picks_random(vc):
    picks(vc, False)


def picks_steepest(vc):
    picks(vc, True)


def stepper(vc):
    SP.prove_stepper(vc, ('grid',))


def new_index(vc):
    I, iw, _ = vc.arr('iw', (3, 3), 'i')
    J, jw, _ = vc.arr('jw', (3, 3), 'i')
    r, c = vc.int('r'), vc.int('c')
    k = vc.int('k', 0, 8)
    outs = vc.run('lagrangian_walker', 'calculate_new_ind', [(r, c), k, I, J])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s)
        a, b = SP.elems(vc.I, s, v)
        vc.prove('row moves by jwalk, column by iwalk', s, z3.And(Z(a) == r + jw(k / 3, k % 3), Z(b) == c + iw(k / 3, k % 3)))


def tables(vc):
    """a Particles object built without own tables uses the D8 walk; its locations start empty"""
    from contracts.c10 import build
    outs = build(vc)[0]
    vc.no_raise(outs)
    for _, s, o in vc.returns(outs):
        vc.cover('reachable', s)
        at = vc.val(s, o).attrs
        iw, jw = vc.val(s, at['iwalk']), vc.val(s, at['jwalk'])
        for k in range(9):
            vc.prove('direction %d' % k, s, z3.And(R(iw.get(divmod(k, 3))) == DC[k], R(jw.get(divmod(k, 3))) == DR[k]))


def border_weights(vc):
    """the weights of a built object satisfy what the abstract contract of get_weight assumes"""
    from contracts.c03 import setup
    M = setup(vc)
    outs = vc.run('lagrangian_walker', 'make_weight', [M['P']])
    vc.no_raise(outs)
    i, j = z3.Ints('i j')
    inr = [0 <= i, i < M['L'], 0 <= j, j < M['W']]
    for _, s, _v in vc.returns(outs):
        w = vc.val(s, vc.val(s, M['P']).attrs['weight'])
        border = inr + [z3.Or(i == 0, i == M['L'] - 1, j == 0, j == M['W'] - 1)]
        it = [1 <= i, i < M['L'] - 1, 1 <= j, j < M['W'] - 1]
        for k in range(9):
            x = FF(w.get((i, j, k)))
            y = vc.under(s, border, x)
            vc.prove('no direction has positive weight in a border cell (%d)' % k, s, z3.And(finite(y), R(y) == 0), border)
            z = vc.under(s, it, x)
            vc.prove('weights are NaN or non-negative and finite (%d)' % k, s, z3.Or(isnan(z), z3.And(finite(z), R(z) >= 0)), it)


def run_iteration(vc):
    IT.prove_plain(vc, ('grid',), ('depth',), True)


def seed_exact(vc):
    SD.prove_generate(vc, ('grid',), 'exact', own=True)


def seed_random(vc):
    SD.prove_generate(vc, ('grid',), 'random', own=True)


def run_iteration_target(vc):
    IT.prove_target(vc, ('grid',), (), False)
