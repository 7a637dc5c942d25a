from common import *
from c05 import Obj

SQ2 = math.sqrt(2)
DIST = [SQ2, 1, SQ2, 1, 1, 1, SQ2, 1, SQ2]
# documented D8 step angles (0 = towards the last column, counter-clockwise, rows growing downwards)
ANG = [3 * math.pi / 4, math.pi / 2, math.pi / 4, math.pi, 0, 0, 5 * math.pi / 4, 3 * math.pi / 2, 7 * math.pi / 4]


def law(dx, k, phi_flow, vo, vn):
    return 0.5 * DIST[k] * dx * max(0.0, math.cos(ANG[k] - phi_flow)) * (1 / vo + 1 / vn)


def cases(rng, tier):
    n = 300 if tier == 'quick' else 3000
    for q in range(n):
        k = rng.choice([0, 1, 2, 3, 5, 6, 7, 8])
        yield dict(kind='fn', k=k, dx=rng.choice([1, 5.0, .25, 50]), ang=rng.choice([rng.uniform(-math.pi, math.pi), ANG[k], math.pi / 2, 0.0, math.pi, ANG[k] - math.pi]),
                   vo=rng.choice([1e-8, rng.uniform(.01, 3), 1.0]), vn=rng.choice([1e-8, rng.uniform(.01, 3), 2.0]),
                   c=rng.choice([0, 0.0, -1.0, .2, 1.0, 2.0]), stay=rng.random() < .1, seed=rng.randrange(10 ** 6), f=rng.choice([None, 0.0, .5, 1 - 1e-15]))
    for q in range(n // 4):
        m = rand_model(rng)
        if rng.random() < .6:
            L, W = shape_of(m)
            m['cell_type'] = grid(rng, L, W, lambda: 0)
        yield dict(kind='walk', m=m, n=rng.randint(1, 5), seed=rng.randrange(10 ** 6), target=rng.choice([None, None, 30.0]))
    for q in range(n // 10):
        yield dict(kind='step', m=rand_model(rng), seed=rng.randrange(10 ** 6), t=rng.choice([0.0, 3.5]))


def run(c):
    if c['kind'] == 'step' and hasattr(lw, 'particle_stepper'):
        P = build(c['m'])
        L, W = P.depth.shape
        np.random.seed(c['seed'])
        cur = [[i, j] for i in range(L) for j in range(W)]
        new, t, _ = lw.particle_stepper(P, [list(q) for q in cur], [c['t']] * len(cur), {})
        for p, (x0, y0) in enumerate(cur):
            x1, y1 = new[p]
            d = t[p] - c['t']
            if (x1, y1) == (x0, y0):
                need(d == 0, "C07 the particle at %r stays and accrues %r" % ((x0, y0), d))
            else:
                k = D8.index((x1 - x0, y1 - y0))
                chk(d, law(P.dx, k, P.velocity_angle[x0, y0], P.velocity[x0, y0], P.velocity[x1, y1]), P.diff_coeff, (p, (x0, y0), (x1, y1)), t[p])
        return
    if c['kind'] == 'fn':
        P = build(dict(dx=c['dx'], depth=[[1.0] * 4] * 4, stage=[[1.0] * 4] * 4, qx=[[1.0] * 4] * 4, qy=[[1.0] * 4] * 4, diff_coeff=.1, verbose=False))
        P.diff_coeff = c['c']
        a, b = D8[c['k']]
        i, j = 1, 1
        P.velocity = np.full((4, 4), 7.0)
        P.velocity[i, j] = c['vo']
        P.velocity[i + a, j + b] = c['vn']
        P.velocity_angle = np.full((4, 4), .3)
        P.velocity_angle[i, j] = c['ang']
        np.random.seed(c['seed'])
        dist = lw.step_update(c['k'], P.distances, P.dx)
        need(close(dist, DIST[c['k']] * c['dx']), "C07 step length of direction %d is %r" % (c['k'], dist))
        ctx = Draws([c['f']]) if c['f'] is not None else contextlib.nullcontext()
        with ctx:
            if c['stay']:
                t = lw.calc_travel_times(P, 4, [i, j], [i, j], dist)
                need(t == 0, "C07 a particle that stays accrues %r" % t)
                return
            t = lw.calc_travel_times(P, c['k'], [i, j], [i + a, j + b], dist)
        base = law(c['dx'], c['k'], c['ang'], c['vo'], c['vn'])
        chk(t, base, c['c'], c)
        return
    P = build(c['m'])
    L, W = P.depth.shape
    np.random.seed(c['seed'])
    xs = [i for i in range(L) for j in range(W)]
    ys = [j for i in range(L) for j in range(W)]
    P.generate_particles(len(xs), xs, ys, method='exact')
    for q in range(c['n']):
        w0 = snap(P.walk_data)
        w = P.run_iteration() if c['target'] is None else P.run_iteration(target_time=c['target'] * (q + 1), max_iter=6)
        for p in range(len(xs)):
            for e in range(len(w0['xinds'][p]), len(w['xinds'][p])):
                x0, y0, x1, y1 = w['xinds'][p][e - 1], w['yinds'][p][e - 1], w['xinds'][p][e], w['yinds'][p][e]
                k = D8.index((x1 - x0, y1 - y0))
                t = w['travel_times'][p][e] - w['travel_times'][p][e - 1]
                chk(t, law(P.dx, k, P.velocity_angle[x0, y0], P.velocity[x0, y0], P.velocity[x1, y1]), P.diff_coeff, (p, e, (x0, y0), (x1, y1)), w['travel_times'][p][e])


def chk(t, base, coeff, info, scale=0.0):
    need(math.isfinite(t), "C07 travel time %r is not finite: %r" % (t, info))
    h = max(0.0, coeff) / 2
    tol = 1e-9 * abs(base) * 3 + 1e-9 + 4e-16 * abs(scale) * 8
    # cos() of an exactly perpendicular angle is only zero up to rounding
    need(base * (1 - h) - tol - 1e-7 * (base < 1e-6) <= t <= base * (1 + h) + tol, "C07 step took %r, the law allows [%r, %r]: %r" % (t, base * (1 - h), base * (1 + h), info))
    if coeff <= 2:
        need(t >= -tol, "C07 negative travel time %r: %r" % (t, info))
