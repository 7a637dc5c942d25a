"""C07: the travel-time law."""
from contracts.util import *
from pyvc import libnp

CONTRACTS = ['calc_travel_times', 'calc_travel_times_mixed', 'calc_no_move', 'step_update', 'default_tables', 'stepper']


def stepper(vc):
    from contracts import stepper as SP
    SP.prove_stepper(vc, ('time',))


def fields(vc, D):
    L, W = vc.int('L', 1), vc.int('W', 1)
    V_, v, _ = vc.arr('vel', (L, W))
    A, va, _ = vc.arr('va', (L, W))
    G, ang, _ = vc.arr('ang', (3, 3))
    i, j = z3.Ints('i$f j$f')
    T.REG.forall([i, j], v(i, j) > 0)
    P = vc.obj('Particles', {'velocity': V_, 'velocity_angle': A, 'angles': G, 'diff_coeff': F(D)})
    return P, L, W, v, va, ang


def calc_travel_times(vc, mk0=None):
    D = vc.real('D')
    P, L, W, v, va, ang = fields(vc, D)
    r0, c0, r1, c1 = [vc.int(x, 0) for x in ('r0', 'c0', 'r1', 'c1')]
    for r in (r0, r1):
        vc.st.assume(r < L)
    for c in (c0, c1):
        vc.st.assume(c < W)
    vc.st.assume(z3.Or(r0 != r1, c0 != c1))
    k = vc.int('k', 0, 8)
    d = vc.real('d', lambda x: x > 0)
    outs = vc.run('lagrangian_walker', 'calc_travel_times', [P, k, (mk0 or mk)(vc, r0, c0), mk(vc, r1, c1), F(d)])
    vc.no_raise(outs)
    phi = ang(k / 3, k % 3) - va(r0, c0)
    cos = libnp._cos(phi)
    even = libnp._cos(-phi) == cos
    base = z3.RealVal('1/2') * d * z3.If(cos > 0, cos, 0) * (1 / v(r0, c0) + 1 / v(r1, c1))
    for _, s, t in vc.returns(outs):
        vc.cover('reachable', s)
        x = FF(t)
        b = z3.Real('b$')
        ex = [even, b == base]
        vc.prove('finite', s, finite(x), ex)
        vc.prove('no diffusion: exactly the documented law', s, R(x) == base, [even, D <= 0])
        ev = [e for e in s.events if e.kind == 'draw']
        vc.flag('at most one draw', len(ev) <= 1)
        if ev:
            u, lo, hi = [R(FF(ev[0].payload[q])) for q in ('r', 'lo', 'hi')]
            # R(x) = base * (1 + delta) with |delta| <= D / 2, delta = (1/2 - share) D for the share of the drawing range below u
            vc.prove('the drawing range is proper', s, lo < hi, [D > 0])
            p = z3.Real('share$')
            dl = (z3.RealVal('1/2') - p) * D
            df = [lo < hi, p * (hi - lo) == u - lo]
            vc.prove('diffusion factor is uniform', s, z3.Or(R(x) == base * (1 + dl), R(x) == base * (1 - dl)), [even, D > 0] + df)
            vc.prove('factor is within half the coefficient', s, z3.And(dl <= D / 2, dl >= -D / 2), [D > 0] + df)
        else:
            vc.prove('a positive coefficient diffuses', s, D <= 0)
        vc.prove('not negative for coefficients up to 2', s, R(x) >= 0, [even, D <= 2])
        vc.prove('perpendicular or opposite steps take no time', s, R(x) == 0, [even, cos <= 0])


def calc_travel_times_mixed(vc):
    """the old location as a tuple, the new one as a list: different locations all the same"""
    calc_travel_times(vc, lambda vc, r, c: (r, c))


def mk(vc, r, c):
    return vc.I.alloc(vc.st, LVal(None, items=[r, c]))


def calc_no_move(vc):
    D = vc.real('D')
    P, L, W, v, va, ang = fields(vc, D)
    r0, c0 = [vc.int(x, 0) for x in ('r0', 'c0')]
    vc.st.assume(r0 < L)
    vc.st.assume(c0 < W)
    outs = vc.run('lagrangian_walker', 'calc_travel_times', [P, vc.int('k', 0, 8), mk(vc, r0, c0), mk(vc, r0, c0), F(vc.real('d'))])
    vc.no_raise(outs)
    for _, s, t in vc.returns(outs):
        vc.cover('reachable', s)
        vc.prove('a particle that does not move accrues no time', s, z3.And(finite(t), R(t) == 0))


def step_update(vc):
    A, d, _ = vc.arr('dist', (3, 3))
    k = vc.int('k', 0, 8)
    dx = vc.real('dx')
    outs = vc.run('lagrangian_walker', 'step_update', [k, A, F(dx)])
    vc.no_raise(outs)
    for _, s, t in vc.returns(outs):
        vc.cover('reachable', s)
        vc.prove('step length is the D8 length times dx', s, z3.And(finite(t), R(t) == d(k / 3, k % 3) * dx))


def default_tables(vc):
    from contracts.c10 import build
    vc.assumptions.add('direction tables are compared with the D8 geometry by their decimal values (1e-9)')
    outs = build(vc)[0]
    vc.no_raise(outs)
    import math
    for _, s, o in outs:
        at = vc.val(s, o).attrs
        tab = {n: vc.val(s, at[n]) for n in ('distances', 'angles', 'ivec', 'jvec', 'iwalk', 'jwalk')}
        for k in range(9):
            r, c = divmod(k, 3)
            g = lambda n: tab[n].get((r, c))
            vc.prove('iwalk %d' % k, s, R(g('iwalk')) == DC[k])
            vc.prove('jwalk %d' % k, s, R(g('jwalk')) == DR[k])
            vc.prove('D8 length %d' % k, s, z3.And(R(g('distances')) > 0, R(g('distances')) * R(g('distances')) == DR[k] ** 2 + DC[k] ** 2 if k != 4 else R(g('distances')) > 0))
            if k != 4:
                vc.flag('angle %d' % k, close_angle(g('angles'), math.atan2(-DR[k], DC[k])), str(g('angles')))
            nrm = math.hypot(DR[k], DC[k]) or 1.0
            vc.prove('unit vector %d' % k, s, z3.And(near(g('ivec'), DC[k] / nrm), near(g('jvec'), DR[k] / nrm)))


def near(x, c):
    e = z3.RealVal('1e-9') if False else z3.Q(1, 10 ** 9)
    c = z3.RealVal(repr(c))
    return z3.And(finite(x), R(x) - c <= e, c - R(x) <= e)


def close_angle(x, a):
    import math
    v = x.v if isinstance(x, F) else x
    if isz(v):
        v = z3.simplify(z3.substitute(v, (libnp.PI, z3.RealVal(repr(math.pi)))))
        if not z3.is_rational_value(v):
            raise Unsupported('angle table entry %s has no numeric value' % v)
        v = v.as_fraction()
    v = float(v)
    d = (v - a) % (2 * math.pi)
    return min(d, 2 * math.pi - d) < 1e-9
