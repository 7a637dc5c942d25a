"""Shared by C01, C02, C07, C08, C09, C11, C12: abstract contracts of get_weight, calc_travel_times and particle_stepper, and a Particles object.

The routing weights of the object are only reached through get_weight; they are represented by pos(r, c, k): direction k has positive weight
in cell (r, c).  get_weight may lower weights to zero (NaN -> 0, steepest descent), never raise them (proved in C01: picks)."""
from contracts.util import *
from pyvc.values import Opaque
from pyvc import libnp

VARS = ('depth', 'stage', 'qx', 'qy', 'u', 'v')
FZ = [z3.IntSort()] * 2


def world(vc, tracked=VARS, roi=True, minL=3):
    L, W = vc.int('L', minL), vc.int('W', minL)
    CT, ct, _ = vc.arr('ct', (L, W), 'i')
    pos = vc.decl('pos', 3, z3.BoolSort())
    r, c, k = z3.Ints('r$w c$w k$w')
    T.REG.forall([r, c, k], z3.Implies(pos(r, c, k), z3.And(1 <= r, r < L - 1, 1 <= c, c < W - 1, 0 <= k, k < 9)))
    s2 = libnp._sqrt(z3.RealVal(2))
    dist = [[F(s2), F(1), F(s2)], [F(1), F(1), F(1)], [F(s2), F(1), F(s2)]]
    grids, gf = {}, {}
    for v in VARS:
        a, d, dn = vc.arr('g_' + v, (L, W), nan=(v == 'stage'))
        grids[v], gf[v] = a, (d, dn)
    dx = vc.real('dx', lambda x: x > 0)
    D = vc.real('D')
    at = dict(weight=Opaque('weight'), distances=vc.carr(dist), dx=F(dx), cell_type=CT, diff_coeff=F(D), verbose=True,
              iwalk=vc.carr([DC[0:3], DC[3:6], DC[6:9]], 'i'), jwalk=vc.carr([DR[0:3], DR[3:6], DR[6:9]], 'i'),
              available_particle_vars=vc.I.alloc(vc.st, DVal(dict(grids))), roi_grid=None, walk_data=None)
    # read by calc_travel_times only, where its body is executed instead of its contract
    vel, vf, _ = vc.arr('g_velocity', (L, W))
    i, j = z3.Ints('i$v j$v')
    T.REG.forall([i, j], vf(i, j) > 0)
    at.update(velocity=vel, velocity_angle=vc.arr('g_angle', (L, W))[0], angles=vc.arr('g_angles', (3, 3))[0])
    rg = None
    if roi:
        RG, rg, _ = vc.arr('roi', (L, W), 'i')
        at['roi_grid'] = RG
    names = list(tracked) + (['roi_flag'] if roi else [])
    at['base_walk_variables'] = vc.I.alloc(vc.st, LVal(None, items=['xinds', 'yinds', 'travel_times']))
    at['particle_variables'] = vc.I.alloc(vc.st, LVal(None, items=list(names)))
    at['tracked_variables'] = vc.I.alloc(vc.st, LVal(None, items=['xinds', 'yinds', 'travel_times'] + names))
    P = vc.obj('Particles', at)
    vc.I.contracts['lagrangian_walker.get_weight'] = lambda I, st, fr: get_weight(vc, I, st, fr, M)
    vc.I.contracts['lagrangian_walker.calc_travel_times'] = lambda I, st, fr: travel(vc, I, st, fr, M)
    base = z3.Function('tbase', *([z3.IntSort()] * 5 + [z3.RealSort(), z3.RealSort()]))
    a = z3.Ints('a$0 a$1 a$2 a$3 a$4')
    M = dict(P=P, L=L, W=W, ct=ct, pos=pos, dx=dx, D=D, grids=gf, roi=rg, names=names, base=base, dist=dist)
    T.REG.ax.setdefault('tbase', []).append(lambda *x: [base(*x) >= 0])
    return M


def elems(I, st, x):
    x = I.content(st, x)
    if isinstance(x, tuple):
        return list(x)
    if isinstance(x, LVal):
        return [x.at(0), x.at(1)]
    if isinstance(x, AVal):
        return [x.get((0,)), x.get((1,))]
    raise Unsupported('location %r' % (x,))


def get_weight(vc, I, st, fr, M):
    """requires a cell of the grid; ensures 0 <= k < 9 and (k = 4 or direction k has positive weight)"""
    r, c = [Z(x) for x in elems(I, st, fr['ind'])]
    I.require(st, z3.And(0 <= r, r < M['L'], 0 <= c, c < M['W']), 'IndexError', 'get_weight outside the grid')
    k, d = I.fresh(st, 'pick', z3.IntSort())
    I.lib.np.assume_fresh(st, k, d, z3.And(0 <= k, k < 9, z3.Or(k == 4, M['pos'](r, c, k))))
    return k


def travel(vc, I, st, fr, M):
    """ensures 0 for equal locations, else base * (1 + delta) with |delta| at most half the coefficient (0 if it is not positive)"""
    kinds = [type(I.content(st, fr[x])) for x in ('ind', 'new_ind')]
    same = None
    if kinds[0] is not kinds[1] or kinds[0] not in (tuple, LVal):
        # a tuple never equals a list: the contract for equal locations does not apply, the body itself is executed there
        fn = vc.fn('lagrangian_walker', 'calc_travel_times')
        same = T.toF(I.call_user(fn, [fr[a.arg] for a in fn.node.args.args], {}, st, inline=True))
    r0, c0 = [Z(x) for x in elems(I, st, fr['ind'])]
    r1, c1 = [Z(x) for x in elems(I, st, fr['new_ind'])]
    I.require(st, z3.And(0 <= r0, r0 < M['L'], 0 <= c0, c0 < M['W'], 0 <= r1, r1 < M['L'], 0 <= c1, c1 < M['W']), 'IndexError', 'travel time outside the grid')
    k = Z(fr['new_cell'])
    dl, d = I.fresh(st, 'delta', z3.RealSort())
    D = M['D']
    I.lib.np.assume_fresh(st, dl, d, z3.And(z3.Implies(D <= 0, dl == 0), z3.Implies(D > 0, z3.And(dl <= D / 2, dl >= -D / 2))))
    b = M['base'](k, r0, c0, r1, c1, R(fr['dist']))
    eq = z3.And(r0 == r1, c0 == c1)
    if same is not None:
        return F(z3.If(eq, R(same), b * (1 + dl)), z3.And(eq, Z(same.nan)), z3.If(eq, Z(same.inf), False))
    return F(z3.If(eq, 0, b * (1 + dl)))


def locations(vc, M, pre='cur'):
    n = vc.int('n', 0)
    r, c = vc.decl(pre + 'r', 1, z3.IntSort()), vc.decl(pre + 'c', 1, z3.IntSort())
    k = z3.Int('k$l')
    T.REG.forall([k], z3.And(0 <= r(k), r(k) < M['L'], 0 <= c(k), c(k) < M['W']))
    t = vc.decl(pre + 't', 1)
    cur = vc.I.alloc(vc.st, LVal(n, fn=lambda i: LVal(None, items=[r(Z(i)), c(Z(i))])))
    tt = vc.I.alloc(vc.st, LVal(n, fn=lambda i: F(t(Z(i)))))
    ov = {v: vc.decl(pre + '_' + v, 1) for v in M['names']}
    opt = vc.I.alloc(vc.st, DVal({v: vc.I.alloc(vc.st, LVal(n, fn=lambda i, v=v: F(ov[v](Z(i))))) for v in M['names']}))
    return dict(n=n, r=r, c=c, t=t, cur=cur, times=tt, opt=opt, ov=ov)


def near_edge(M, r, c):
    ct, L, W = M['ct'], M['L'], M['W']
    return z3.Or(*[z3.And(0 <= r + a, r + a < L, 0 <= c + b, c + b < W, ct(r + a, c + b) == -1) for a in (-1, 0, 1) for b in (-1, 0, 1)])


def dlen(M, k):
    """D8 length of direction k (z3 int)"""
    e = R(M['dist'][2][2])
    for x in range(8):
        e = z3.If(k == x, R(M['dist'][x // 3][x % 3]), e)
    return e


def code(dr, dc):
    """direction number of an offset"""
    return (dr + 1) * 3 + dc + 1


def run_stepper(vc, M, S):
    return vc.run('lagrangian_walker', 'particle_stepper', [M['P'], S['cur'], S['times'], S['opt']])


def stepper_facts(vc, M, S, s, v):
    """(i, range, current cell, new cell, old time, new time) of a generic particle after the stepper"""
    i = z3.Int('i')
    rng = [0 <= i, i < S['n']]
    ni, nt = vc.val(s, v[0]), vc.val(s, v[1])
    e = vc.val(s, ni.at(i))
    if not isinstance(ni, LVal) or not isinstance(e, LVal):
        raise Unsupported('the stepper does not return a list of lists')      # its callers compare the locations with lists
    r1, c1 = [Z(x) for x in elems(vc.I, s, e)]
    return i, rng, (S['r'](i), S['c'](i)), (r1, c1), S['t'](i), FF(nt.at(i)), ni, nt


def grid_value(M, v, r, c):
    """the recorded value of tracked variable v in cell (r, c)"""
    if v == 'roi_flag':
        return F(z3.If(M['roi'](r, c) == 1, z3.RealVal(1), z3.RealVal(0)))
    d, dn = M['grids'][v]
    return F(d(r, c), dn(r, c) if dn is not None else False)


def prove_stepper(vc, which, tracked=VARS, roi=True):
    M = world(vc, tracked, roi)
    S = locations(vc, M)
    outs = run_stepper(vc, M, S)
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        i, rng, (r0, c0), (r1, c1), t0, t1, ni, nt = stepper_facts(vc, M, S, s, v)
        vc.cover('a particle', s, rng)
        moved = z3.Or(r1 != r0, c1 != c0)
        L, W = M['L'], M['W']
        vc.prove('one new location and one new time per particle', s, z3.And(Z(ni.len) == S['n'], Z(nt.len) == S['n']))
        if 'grid' in which:
            vc.cover('a particle that moves', s, rng + [moved])
            vc.prove('the new cell is inside the grid', s, z3.And(0 <= r1, r1 < L, 0 <= c1, c1 < W), rng)
            vc.prove('each index changes by at most one', s, z3.And(r1 - r0 <= 1, r0 - r1 <= 1, c1 - c0 <= 1, c0 - c1 <= 1), rng)
            vc.prove('moves only where the direction has weight', s, M['pos'](r0, c0, code(r1 - r0, c1 - c0)), rng + [moved])
            none = z3.And(*[z3.Not(M['pos'](r0, c0, k)) for k in range(9)])
            vc.prove('without an admissible direction it stays', s, z3.Not(moved), rng + [none])
            vc.prove('it does not get the weight of another cell: a move has the direction of its own weights', s, z3.Not(moved), rng + [z3.Not(z3.Or(*[M['pos'](r0, c0, k) for k in range(9)]))])
        if 'edge' in which:
            vc.prove('next to an edge: location and time stay', s, z3.And(z3.Not(moved), finite(t1), R(t1) == t0), rng + [near_edge(M, r0, c0)])
        if 'time' in which:
            vc.prove('finite time', s, finite(t1), rng)
            vc.prove('no move, no time', s, R(t1) == t0, rng + [z3.Not(moved)])
            vc.prove('time never decreases for coefficients up to 2', s, R(t1) >= t0, rng + [M['D'] <= 2])
            k = code(r1 - r0, c1 - c0)
            b = M['base'](k, r0, c0, r1, c1, dlen(M, k) * M['dx'])
            z = z3.Real('z$')
            vc.prove('a move takes the documented time of its own step and direction', s, z3.And(R(t1) - t0 <= b * (1 + M['D'] / 2), R(t1) - t0 >= b * (1 - M['D'] / 2)), rng + [moved, M['D'] > 0])
            vc.prove('a move takes exactly the documented time without diffusion', s, R(t1) - t0 == b, rng + [moved, M['D'] <= 0])
        if 'vars' in which:
            o = vc.val(s, v[2])
            for nm in M['names']:
                vc.flag('%s is updated' % nm, nm in o.d)
                l = vc.val(s, o.d[nm])
                vc.prove('%s: one value per particle' % nm, s, Z(l.len) == S['n'])
                vc.prove('%s: value of the new cell' % nm, s, eqF(l.at(i), grid_value(M, nm, r1, c1)), rng)
            vc.flag('no other variable appears', set(o.d) <= set(M['names']) | {'roi_flag'}, str(sorted(o.d)))
        if 'frame' in which:
            l, t = vc.val(s, S['cur']), vc.val(s, S['times'])
            e = [Z(x) for x in elems(vc.I, s, l.at(i))]
            vc.prove('the given locations are not changed', s, z3.And(Z(l.len) == S['n'], e[0] == r0, e[1] == c0), rng)
            vc.prove('the given times are not changed', s, z3.And(Z(t.len) == S['n'], finite(t.at(i)), R(t.at(i)) == t0), rng)
    return M, S, outs


# ---------------------------------------------------------------- abstract contract of particle_stepper (proved by prove_stepper)
def abstract_stepper(vc, M):
    from pyvc.loops import Oblig

    def apply(I, st, fr):
        cur, tt, opt = I.content(st, fr['current_inds']), I.content(st, fr['travel_times']), I.content(st, fr['start_optional'])
        if fr['Particles'] != M['P']:
            raise Unsupported('stepper on another object')
        single = cur.items is not None and len(cur.items) == 1 if hasattr(cur, 'items') else False
        n = cur.len
        i = z3.Int(T.REG.fresh('i$st'))

        def loc(x):
            return [Z(a) for a in elems(I, st, cur.at(x))]
        r, c = loc(0 if single else i)
        pre = z3.And(0 <= r, r < M['L'], 0 <= c, c < M['W'])
        rng = [] if single else [0 <= i, i < Z(n)]
        I.obligs.append(Oblig('callee-pre', 'particle_stepper: locations inside the grid', list(st.pc) + rng, pre))
        I.obligs.append(Oblig('callee-pre', 'particle_stepper: one time per location', list(st.pc), Z(tt.len) == Z(n)))
        I.obligs.append(Oblig('callee-pre', 'particle_stepper: tracked variables', [], z3.BoolVal(set(opt.d) == set(M['names']))))
        ar = [z3.IntSort()] * (len(st.loops) + (0 if single else 1))
        sc = {}
        for nm, so in (('nr', z3.IntSort()), ('nc', z3.IntSort()), ('nt', z3.RealSort())):
            _, d = I.fresh(st, nm, so)
            name = d.name() if d is not None else _.decl().name()
            sc[nm] = z3.Function('S' + name, *(ar + [so])) if ar else z3.Const('S' + name, so)

        def val(nm, x):
            a = list(st.loops) + ([] if single else [Z(x)])
            return sc[nm](*a) if a else sc[nm]
        R0, C0 = (r, c)
        N = val('nr', i), val('nc', i)
        t0 = FF(tt.at(0 if single else i))
        t1 = val('nt', i)
        moved = z3.Or(N[0] != R0, N[1] != C0)
        kk = code(N[0] - R0, N[1] - C0)
        base = M['base'](kk, R0, C0, N[0], N[1], dlen(M, kk) * M['dx'])
        D = M['D']
        post = z3.And(0 <= N[0], N[0] < M['L'], 0 <= N[1], N[1] < M['W'],
                      N[0] - R0 <= 1, R0 - N[0] <= 1, N[1] - C0 <= 1, C0 - N[1] <= 1,
                      z3.Implies(moved, M['pos'](R0, C0, kk)),
                      z3.Implies(near_edge(M, R0, C0), z3.Not(moved)),
                      z3.Implies(z3.Not(moved), t1 == R(t0)),
                      z3.Implies(z3.And(moved, D > 0), z3.And(t1 - R(t0) <= base * (1 + D / 2), t1 - R(t0) >= base * (1 - D / 2))),
                      z3.Implies(z3.And(moved, D <= 0), t1 - R(t0) == base),
                      z3.Implies(D <= 2, t1 >= R(t0)))
        vs = list(st.loops) + ([] if single else [i])
        if not single:
            post = z3.Implies(z3.And(0 <= i, i < Z(n)), post)
        for nm in ('nr', 'nc', 'nt'):
            if vs:
                T.REG.forall(vs, post, triggers=[(sc[nm].name(), [(v, p, 0) for p, v in enumerate(vs)])])
            else:
                T.REG.ax.setdefault(sc[nm].decl().name(), []).append(lambda post=post: [post])
        if single:
            inds = I.alloc(st, LVal(None, items=[I.alloc(st, LVal(None, items=[val('nr', 0), val('nc', 0)]))]))
            times = I.alloc(st, LVal(None, items=[F(val('nt', 0))]))
            od = {v: I.alloc(st, LVal(None, items=[grid_value(M, v, val('nr', 0), val('nc', 0))])) for v in M['names']}
        else:
            inds = I.alloc(st, LVal(n, fn=lambda x: LVal(None, items=[val('nr', x), val('nc', x)])))
            times = I.alloc(st, LVal(n, fn=lambda x: F(val('nt', x))))
            od = {v: I.alloc(st, LVal(n, fn=lambda x, v=v: grid_value(M, v, val('nr', x), val('nc', x)))) for v in M['names']}
        M['last'] = dict(nr=lambda x: val('nr', x), nc=lambda x: val('nc', x), nt=lambda x: val('nt', x), sc=sc)
        return (inds, times, I.alloc(st, DVal(od)))
    vc.I.contracts['lagrangian_walker.particle_stepper'] = apply


def with_walk(vc, M, minlen=1, lack=()):
    """walk data of n particles with equally long histories inside the grid, as produced by generate_particles and earlier iterations"""
    H = hist(vc, extra=[x for x in M['names'] if x not in lack], minlen=minlen)
    a, b = z3.Ints('a$g b$g')
    T.REG.forall([a, b], z3.And(0 <= H['X'](a, b), H['X'](a, b) < M['L'], 0 <= H['Y'](a, b), H['Y'](a, b) < M['W']))
    P = vc.val(vc.st, M['P'])
    P.attrs['walk_data'] = H['w']
    P.attrs['Np_tracer'] = H['n']
    return H
