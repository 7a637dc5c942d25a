"""C10: normalisation of the model fields in Particles.__init__."""
from contracts.util import *
from pyvc import libnp



def params(vc, given, model=None, extra=None):
    """a modelParams object with the named fields given as arrays (finite or NaN entries), the other modelParams fields None"""
    L, W = vc.int('L', 3), vc.int('W', 3)
    at = {k: None for k in ('dx', 'depth', 'stage', 'qx', 'qy', 'u', 'v', 'verbose')}
    fld = {}
    for g in given:
        a, d, dn = vc.arr('p_' + g, (L, W), nan=True)
        at[g] = a
        fld[g] = (d, dn)
    at['dx'] = F(vc.real('dx', lambda x: x > 0))
    if model is not None:
        at['model'] = model
    at.update(extra or {})
    return vc.obj('modelParams', at), L, W, fld


def build(vc, given=('depth', 'stage', 'qx', 'qy'), model=None, extra=None):
    P, L, W, fld = params(vc, given, model, extra)
    o = vc.obj('Particles', {})
    outs = vc.run('particle_track', 'Particles.__init__', [o, P])
    return [(k, s, o if k == 'return' else v) for k, s, v in outs], P, L, W, fld


GEO = dict(ds=('depth', 'stage'), dt=('depth', 'topography'), st=('stage', 'topography'), dst=('depth', 'stage', 'topography'))
FLOW = dict(q=('qx', 'qy'), v=('u', 'v'), qv=('qx', 'qy', 'u', 'v'))
CONTRACTS = []


def E8():
    return z3.Q(1, 10 ** 8)


def close(x, y, e):
    return z3.And(x - y <= e, y - x <= e)


def fields(vc, geo, flow, model):
    outs, P, L, W, fld = build(vc, GEO[geo] + FLOW[flow], model)
    i, j = z3.Ints('i j')
    rng = [0 <= i, i < L, 0 <= j, j < W]
    g = lambda n: (fld[n][0](i, j), fld[n][1](i, j))
    pre = []
    if 'topography' in fld:
        pre.append(z3.Not(g('topography')[1]))
    if 'stage' in fld:
        pre.append(z3.Not(g('stage')[1]))
    if 'depth' in fld:
        d0, dn = g('depth')
        d = z3.If(dn, 0, d0)
    else:
        e = g('stage')[0] - g('topography')[0]
        d = z3.If(e > 0, e, 0)
    st = g('stage')[0] if 'stage' in fld else g('topography')[0] + d
    vc.no_raise(outs)
    nz = lambda p: z3.If(p[1], 0, p[0])
    use_q = 'qx' in fld
    a, b = (nz(g('qx')), nz(g('qy'))) if use_q else (nz(g('u')), nz(g('v')))
    if model != 'DeltaRCM':
        a, b = -b, a
    if use_q:
        qx, qy = a, b
        u, v = a * d / (d * d + E8()), b * d / (d * d + E8())
    else:
        u, v = a, b
        qx, qy = a * d, b * d
    for _, s, o in vc.returns(outs):
        ext = rng + pre
        vc.cover('reachable', s, ext)
        at = vc.val(s, o).attrs
        el = lambda n: vc.under(s, rng, FF(vc.val(s, at[n]).get((i, j))))
        for n in ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'velocity', 'velocity_angle'):
            sh = vc.val(s, at[n]).shape
            vc.prove(n + ': raster shape', s, z3.And(Z(sh[0]) == L, Z(sh[1]) == W), pre)
        D = el('depth')
        vc.prove('depth has no NaN and follows the inputs', s, z3.And(finite(D), R(D) == d), ext)
        S = el('stage')
        vc.prove('stage is NaN exactly where depth is 0', s, isnan(S) == (d == 0), ext)
        vc.prove('stage is depth plus topography, or as given', s, z3.Or(isnan(S), z3.And(finite(S), R(S) == st)), ext)
        for n, w in (('qx', qx), ('qy', qy)):
            x = el(n)
            vc.prove(n + ' follows the inputs', s, z3.And(finite(x), R(x) == w), ext)
        UU, VV = el('u'), el('v')
        for n, x, w in (('u', UU, u), ('v', VV, v)):
            vc.prove(n + ' is finite', s, finite(x), ext)
            vc.prove(n + ' is the velocity up to the regularisation', s, z3.Or(R(x) == w, z3.And(close(w, 0, E8()), close(R(x), 0, E8()))), ext)
        x = el('velocity')
        vc.prove('speed is finite', s, finite(x), ext)
        vc.prove('speed is at least 1e-8', s, R(x) >= E8(), ext)
        sq = libnp._sqrt(u * u + v * v)
        vc.prove('speed is the length of the velocity', s, z3.Or(R(x) == sq, z3.And(R(x) == E8(), sq <= E8())), ext)
        x = el('velocity_angle')
        vc.prove('flow angle is atan2(-row, column)', s, z3.And(finite(x), R(x) == libnp._atan2(-R(UU), R(VV))), ext)


def _mk(geo, flow, model):
    def f(vc):
        fields(vc, geo, flow, model)
    name = 'fields_%s_%s_%s' % (geo, flow, model or 'map')
    globals()[name] = f
    CONTRACTS.append(name)


for _g in GEO:
    for _f in FLOW:
        for _m in (None, 'DeltaRCM'):
            _mk(_g, _f, _m)
_mk('ds', 'q', 'other')
_mk('ds', 'v', 'other')


def _bad(name, given, model=None, dx=True):
    def f(vc):
        outs, P, L, W, fld = build(vc, given, model, None if dx else {'dx': None})
        vc.flag('rejected with ValueError', bool(outs) and all(k == 'raise' and v.exc == 'ValueError' for k, _, v in outs), str([(k, getattr(v, 'exc', '')) for k, _, v in outs]))
    globals()['rejects_' + name] = f
    CONTRACTS.append('rejects_' + name)


for _m in (None, 'DeltaRCM'):
    _t = '_d' if _m else ''
    _bad('no_dx' + _t, ('depth', 'stage', 'qx', 'qy'), _m, False)
    _bad('no_depth' + _t, ('stage', 'qx', 'qy'), _m)
    _bad('no_stage' + _t, ('depth', 'qx', 'qy'), _m)
    _bad('topo_only' + _t, ('topography', 'qx', 'qy'), _m)
    _bad('no_geo' + _t, ('qx', 'qy'), _m)
    for _i, _fl in enumerate([(), ('qx',), ('qy',), ('u',), ('v',), ('qx', 'v'), ('qy', 'u'), ('qx', 'u'), ('qy', 'v')]):
        _bad('flow%d%s' % (_i, _t), ('depth', 'stage') + _fl, _m)
