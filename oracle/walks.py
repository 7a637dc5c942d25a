"""Random operation sequences on Particles, shared by C08, C09, C11, C12."""
from common import *


def rand_seq(rng, **kw):
    m = rand_model(rng, **kw)
    L, W = shape_of(m)
    ops = [rand_gen(rng, L, W)]
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .5:
            ops.append(dict(op='it'))
        elif r < .75:
            ops.append(dict(op='target', dt=rng.choice([.3, 2.0, 10.0, 100.0, 1000.0]), max_iter=rng.choice([1, 2, 5, 10, 10.0])))
        else:
            g = rand_gen(rng, L, W)
            q = rng.random()
            if q < .25:
                g['prev'] = rng.choice(['own', 'fresh', 'bare'])
            if .15 < q < .4:
                g['strip'] = rng.randrange(100)
            if q > .7 and g['method'] == 'random':
                g['ys'] = [rng.randrange(W) for _ in range(rng.randint(1, 6))]
            ops.append(g)
    return dict(m=m, ops=ops, seed=rng.randrange(10 ** 6))


def rand_gen(rng, L, W):
    k = rng.randint(1, 5)
    return dict(op='gen', N=rng.choice([0, 1, 2, 3, 5, 7]), xs=[rng.randrange(L) for _ in range(k)], ys=[rng.randrange(W) for _ in range(k)],
                method=rng.choice(['random', 'exact']), t0=rng.choice([0, 0, 0.0, 3.5, 10, -2.5, 1234567.123456789, 1e9 + .5]))


def make_prev(P, kind, m):
    if kind == 'own':
        Q = build(m)
        Q.generate_particles(2, [1, 2], [1, 1], method='exact')
        Q.run_iteration()
        return snap(Q.walk_data)
    w = {'xinds': [[1], [1, 2]], 'yinds': [[1], [1, 1]], 'travel_times': [[0.0], [0.0, 2.5]]}
    if kind == 'fresh':
        for v in P.tracked_variables:
            if v in P.available_particle_vars:
                g = P.available_particle_vars[v]
                w[v] = [[g[x, y] for x, y in zip(a, b)] for a, b in zip(w['xinds'], w['yinds'])]
            elif v == 'roi_flag':
                w[v] = [[1 if P.roi_grid[x, y] == 1 else 0 for x, y in zip(a, b)] for a, b in zip(w['xinds'], w['yinds'])]
    return w


def drive(c, on_gen=None, on_it=None, on_target=None):
    P = build(c['m'])
    np.random.seed(c['seed'])
    for o in c['ops']:
        w0 = snap(P.walk_data) if P.walk_data is not None else None
        if o['op'] == 'gen':
            if 'strip' in o and P.walk_data is not None:
                # the object's own particles lack a tracked variable
                ks = [k for k in P.tracked_variables if k in P.walk_data and k not in BASE]
                for k in (ks if o['strip'] % 3 == 0 else ks[o['strip'] % len(ks):][:1] if ks else []):
                    del P.walk_data[k]
                w0 = snap(P.walk_data)
            prev = make_prev(P, o['prev'], c['m']) if o.get('prev') else None
            prev0 = snap(prev)
            P.generate_particles(o['N'], o['xs'], o['ys'], seed_time=o['t0'], method=o['method'], previous_walk_data=prev)
            if on_gen:
                on_gen(P, o, w0, prev0)
        elif o['op'] == 'it':
            r = P.run_iteration()
            if on_it:
                on_it(P, o, w0, r)
        else:
            tt = [t[-1] for t in w0['travel_times']]
            T = (min(tt) if tt else 0) + o['dt']
            wt = np.nan_to_num(np.array(P.weight, dtype=float))
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                P.verbose = True if o.get('verbose', True) else False
                r = P.run_iteration(target_time=T, max_iter=o['max_iter'])
            if on_target:
                on_target(P, o, w0, r, T, wt, ws)
    return P
