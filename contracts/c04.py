"""C04: the documented gamma/theta blend, make_weight."""
from contracts.util import *
from contracts.c03 import setup, blend, interior
from pyvc import libnp

CONTRACTS = ['blend_0_2', 'blend_3_5', 'blend_6_8']


def blend_0_2(vc):
    blend_law(vc, range(0, 3))


def blend_3_5(vc):
    blend_law(vc, range(3, 6))


def blend_6_8(vc):
    blend_law(vc, range(6, 9))


def blend_law(vc, ks):
    M = setup(vc)
    outs = vc.run('lagrangian_walker', 'make_weight', [M['P']])
    vc.no_raise(outs)
    i, j = z3.Ints('i j')
    it = interior(M, i, j)
    for _, s, _v in vc.returns(outs):
        w = vc.val(s, vc.val(s, M['P']).attrs['weight'])
        S, I, adm = blend(M, i, j)
        SS, II = sum(S[1:], S[0]), sum(I[1:], I[0])
        some = z3.And(z3.Not(M['stn'](i, j)), z3.Or(*[z3.And(adm[k], z3.Or(z3.And(M['g'] > 0, S[k] > 0), z3.And(M['g'] < 1, I[k] > 0))) for k in range(9)]))
        vc.cover('a cell with some weight', s, it + [some])
        for k in ks:
            x = vc.under(s, it, FF(w.get((i, j, k))))
            x = vc.resolve(s, it + [some, adm[k]], x)
            x = vc.equate(s, it + [some, adm[k]], x, S + I)
            x = vc.equate(s, it + [some, adm[k]], x, [SS, II])
            p = libnp._powv(M["dep"](i + DR[k], j + DC[k]), M["th"])
            sn = z3.If(SS > 0, S[k] / SS, 0)
            qn = z3.If(II > 0, I[k] / II, 0)
            vc.prove('weight %d is depth^theta (gamma S + (1-gamma) I)' % k, s,
                     z3.And(finite(x), R(x) == p * (M['g'] * sn + (1 - M['g']) * qn)), it + [some, adm[k]], split=[SS > 0, II > 0])
            vc.prove('gamma=1: weight %d does not depend on discharge' % k, s, R(x) == p * sn, it + [some, adm[k], M['g'] == 1], split=[SS > 0])
            vc.prove('gamma=0: weight %d does not depend on stage' % k, s, R(x) == p * qn, it + [some, adm[k], M['g'] == 0], split=[II > 0])
            vc.prove('theta=0: weight %d does not depend on depth' % k, s, R(x) == M['g'] * sn + (1 - M['g']) * qn, it + [some, adm[k], M['th'] == 0], split=[SS > 0, II > 0])
