"""C12: tracked variables and ROI flags match the grid at the recorded cell."""
from contracts.util import *
from contracts import stepper as SP
from contracts import iteration as IT
from contracts import seeding as SD

CONTRACTS = ['stepper', 'stepper_no_roi', 'stepper_none', 'run_iteration', 'run_iteration_all', 'run_iteration_target', 'run_iteration_target_roi', 'seed', 'seed_random', 'seed_again', 'seed_no_roi', 'unavailable']


def stepper(vc):
    SP.prove_stepper(vc, ('vars',))


def stepper_no_roi(vc):
    SP.prove_stepper(vc, ('vars',), roi=False)


def stepper_none(vc):
    SP.prove_stepper(vc, ('vars',), tracked=(), roi=True)


def run_iteration(vc):
    IT.prove_plain(vc, ('vars',))


def run_iteration_all(vc):
    IT.prove_plain(vc, ('vars',), SP.VARS, False)


def seed(vc):
    SD.prove_generate(vc, ('vars',), 'exact', tracked=SP.VARS)


def seed_random(vc):
    SD.prove_generate(vc, ('vars',), 'random', tracked=SP.VARS)


def seed_again(vc):
    SD.prove_generate(vc, ('vars',), 'random', own=True, prev=True, tracked=('stage', 'u'))


def seed_no_roi(vc):
    SD.prove_generate(vc, ('vars',), 'random', tracked=SP.VARS, roi=False)


def unavailable(vc):
    SD.prove_rejects(vc, 'ValueError', track=['depth', 'salinity'])


def run_iteration_target(vc):
    IT.prove_target(vc, ('vars',), ('stage', 'depth'), False)


def run_iteration_target_roi(vc):
    IT.prove_target(vc, ('vars',), (), True)


def init(vc, given, roi):
    """which variables an object tracks and which grid each name stands for"""
    from contracts import c10
    extra = {}
    if given is not None:
        extra['particle_variables'] = vc.I.alloc(vc.st, LVal(None, items=list(given)))
    L, W = vc.int('L', 3), vc.int('W', 3)
    if roi:
        extra['roi_grid'], rg, _ = vc.arr('roi', (L, W), 'i')
    outs = c10.build(vc, extra=extra)[0]
    vc.no_raise(outs)
    want = list(given or [])
    if roi and 'roi_flag' not in want:
        want.append('roi_flag')
    for _, s, o in vc.returns(outs):
        at = vc.val(s, o).attrs
        tr = vc.val(s, at['tracked_variables'])
        vc.flag('tracks cells, times and exactly the asked variables (and the flag of a given region)',
                tr.items is not None and list(tr.items[:3]) == ['xinds', 'yinds', 'travel_times'] and sorted(tr.items[3:]) == sorted(want), str(tr.items))
        av = vc.val(s, at['available_particle_vars'])
        vc.flag('the available variables', isinstance(av, DVal) and set(av.d) == set(SP.VARS), str(sorted(av.d)))
        i, j = z3.Ints('i j')
        rng = [0 <= i, i < L, 0 <= j, j < W]
        for v in SP.VARS:
            a, b = vc.val(s, av.d[v]), vc.val(s, at[v])
            for q in (a, b):
                if not isinstance(q, AVal) or len(q.shape) != 2:
                    raise Unsupported('%s is not a 2-d grid' % v)
            vc.prove('%s: the grid of the domain' % v, s, z3.And(Z(a.shape[0]) == L, Z(a.shape[1]) == W))
            vc.prove('%s stands for the grid of that name' % v, s, eqF(a.get((i, j)), b.get((i, j))), rng)
        if roi:
            q = vc.val(s, at['roi_grid'])
            vc.prove('the region grid is the given one', s, z3.And(Z(q.shape[0]) == L, Z(q.shape[1]) == W, Z(q.get((i, j))) == rg(i, j)), rng)
        else:
            vc.flag('no region grid', at['roi_grid'] is None)


for _n, _g, _r in (('none', None, False), ('roi', None, True), ('empty_roi', [], True), ('some', ['depth', 'u'], False), ('some_roi', ['v', 'stage'], True), ('flag_roi', ['roi_flag', 'qx'], True)):
    globals()['init_' + _n] = (lambda vc, g=_g, r=_r: init(vc, g, r))
    CONTRACTS.append('init_' + _n)
