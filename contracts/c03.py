"""C03 (and the set-up of C04): routing weights, make_weight."""
from contracts.util import *

CONTRACTS = ['signs', 'admissible', 'dead_ends']


def signs(vc):
    weights(vc, 'signs')


def admissible(vc):
    weights(vc, 'adm')


def dead_ends(vc):
    weights(vc, 'dead')


def setup(vc, nan_stage=True):
    L, W = vc.int('L', 1), vc.int('W', 1)
    S, st, stn = vc.arr('stage', (L, W), nan=nan_stage)
    D, dep, _ = vc.arr('depth', (L, W))
    QX, qx, _ = vc.arr('qx', (L, W))
    QY, qy, _ = vc.arr('qy', (L, W))
    CT, ct, _ = vc.arr('ct', (L, W), 'i')
    dist = [vc.real('dist%d' % k, lambda x: x > 0) for k in range(9)]
    jv = [vc.real('jv%d' % k) for k in range(9)]
    iv = [vc.real('iv%d' % k) for k in range(9)]
    tab = lambda t: vc.carr([t[0:3], t[3:6], t[6:9]])
    g = vc.real('gamma', lambda x: x >= 0, lambda x: x <= 1)
    th, dry = vc.real('theta'), vc.real('dry', lambda x: x >= 0)
    # a wet cell has a finite stage (C10: stage is NaN exactly where depth is 0)
    if nan_stage:
        i, j = z3.Ints('i$p j$p')
        T.REG.forall([i, j], z3.Or(dep(i, j) <= 0, z3.Not(stn(i, j))))
    P = vc.obj('Particles', dict(stage=S, depth=D, qx=QX, qy=QY, cell_type=CT, distances=tab(dist), jvec=tab(jv), ivec=tab(iv), gamma=F(g), theta=F(th), dry_depth=F(dry)))
    return dict(P=P, L=L, W=W, st=st, stn=stn, dep=dep, qx=qx, qy=qy, ct=ct, dist=dist, jv=jv, iv=iv, g=g, th=th, dry=dry, arrays=dict(stage=S, depth=D, qx=QX, qy=QY, cell_type=CT))


def blend(M, i, j):
    """the documented weights of the nine cells around the interior cell (i, j): list of (admissible, weight without depth^theta)"""
    S, I, adm = [], [], []
    for k in range(9):
        a, b = i + DR[k], j + DC[k]
        ok = z3.And(M['dep'](a, b) > M['dry'], M['ct'](a, b) != 2)
        s = (M['st'](i, j) - M['st'](a, b)) / M['dist'][k]
        q = (M['qx'](i, j) * M['jv'][k] + M['qy'](i, j) * M['iv'][k]) / M['dist'][k]
        # an undefined stage (dry cell) contributes no slope; a NaN at the cell itself leaves the slope undefined
        und = M['stn'](i, j) if M['stn'] is not None else False
        S.append(z3.If(z3.And(ok, s > 0, z3.Not(Z(und))), s, 0))
        I.append(z3.If(z3.And(ok, q > 0), q, 0))
        adm.append(ok)
    return S, I, adm


def interior(M, i, j):
    return [1 <= i, i < M['L'] - 1, 1 <= j, j < M['W'] - 1]


def weights(vc, part):
    M = setup(vc)
    outs = vc.run('lagrangian_walker', 'make_weight', [M['P']])
    vc.no_raise(outs)
    i, j = z3.Ints('i j')
    inr = [0 <= i, i < M['L'], 0 <= j, j < M['W']]
    for _, s, _v in vc.returns(outs):
        vc.cover('interior cells', s, interior(M, i, j))
        w = vc.val(s, vc.val(s, M['P']).attrs['weight'])
        vc.flag('weight is a 3-d array', len(w.shape) == 3)
        vc.prove('shape (L, W, 9)', s, z3.And(Z(w.shape[0]) == M['L'], Z(w.shape[1]) == M['W'], Z(w.shape[2]) == 9))
        W9 = [vc.under(s, inr, FF(w.get((i, j, k)))) for k in range(9)]
        WB = W9
        border = inr + [z3.Or(i == 0, i == M['L'] - 1, j == 0, j == M['W'] - 1)]
        it = interior(M, i, j)
        W9 = [vc.under(s, it, x) for x in W9]
        pos = [z3.And(Z(bnot(x.nan)), z3.Or(Z(x.inf), T.ZR(x.v) > 0)) for x in W9]
        adm = [z3.And(M['dep'](i + DR[k], j + DC[k]) > M['dry'], M['ct'](i + DR[k], j + DC[k]) != 2) for k in range(9)]
        dk = [M['dep'](i + DR[k], j + DC[k]) for k in range(9)]
        S, I, _ = blend(M, i, j)
        SS, II = sum(S[1:], S[0]), sum(I[1:], I[0])
        for k in range(9) if part == 'signs' else ():
            x = WB[k]
            vc.prove('not infinite (%d)' % k, s, Z(bnot(x.inf)), inr)
            vc.prove('border cells have weight zero (%d)' % k, s, z3.And(finite(x), R(x) == 0), border)
            x = W9[k]
            vc.prove('no negative weight (%d)' % k, s, z3.Or(isnan(x), R(x) >= 0), it)
        some = z3.Or(*[z3.And(adm[k], z3.Or(z3.And(M['g'] > 0, S[k] > 0), z3.And(M['g'] < 1, I[k] > 0))) for k in range(9)])
        if M['stn'] is not None:
            some = z3.And(z3.Not(M['stn'](i, j)), some)
        for k in range(9) if part == 'adm' else ():
            vc.prove('no weight towards dry or land neighbour %d' % k, s, z3.Not(pos[k]), it + [some, z3.Not(adm[k])])
        if part == 'adm':
            vc.prove('a cell with an admissible direction has weight', s, z3.Or(*pos), it + [some])
        for k in range(9) if part == 'dead' else ():
            deepest = z3.And(*[dk[k] >= dk[m] for m in range(9)])
            vc.prove('dead end: weight exactly to the deepest (%d)' % k, s, pos[k] == deepest, it + [z3.Not(some)])
        for n, a in M['arrays'].items() if part == 'signs' else ():
            same_field(vc, s, n, a, M)


def same_field(vc, s, n, a, M):
    i, j = z3.Ints('i$u j$u')
    inr = [0 <= i, i < M['L'], 0 <= j, j < M['W']]
    v = vc.val(s, a).get((i, j))
    f = {'stage': 'st', 'depth': 'dep', 'qx': 'qx', 'qy': 'qy', 'cell_type': 'ct'}[n]
    if n == 'cell_type':
        vc.prove('%s unchanged' % n, s, Z(v) == M[f](i, j), inr)
    elif n == 'stage' and M['stn'] is not None:
        vc.prove('%s unchanged' % n, s, z3.And(isnan(v) == M['stn'](i, j), z3.Or(isnan(v), R(v) == M[f](i, j))), inr)
    else:
        vc.prove('%s unchanged' % n, s, z3.And(finite(v), R(v) == M[f](i, j)), inr)
