from common import *


def cases(rng, tier):
    n = 220 if tier == 'quick' else 2500
    for k in range(n):
        m = rand_model(rng)
        L, W = shape_of(m)
        N = rng.randint(1, 8)
        xs = [rng.choice([0, 1, L - 2, L - 1, rng.randrange(L)]) for _ in range(N)]
        ys = [rng.choice([0, 1, W - 2, W - 1, rng.randrange(W)]) for _ in range(N)]
        ops = [rng.choice(['it', 'it', 'it', 'it', ['t', rng.choice([.5, 5., 50., 500.]), rng.choice([3, 8])]]) for _ in range(rng.randint(1, 10))]
        yield dict(kind='walk', m=m, xs=xs, ys=ys, ops=ops, seed=rng.randrange(10 ** 6),
                   draw=rng.choice([None, None, None, 0.0, 1 - 1e-12, .5]))
    for size in (200, 300, 33000, 66000):  # grids wider or longer than the narrow integer ranges
        yield dict(kind='wide', size=size, rows=rng.random() < .5, seed=rng.randrange(10 ** 6))


def wide(c):
    shape = (c['size'], 5) if c['rows'] else (5, c['size'])
    m = dict(depth=np.ones(shape), stage=np.ones(shape), qx=np.full(shape, .3), qy=np.full(shape, 1.), cell_type=np.zeros(shape, dtype=int), model='DeltaRCM', dx=1.)
    p = pt.modelParams()
    for k, v in m.items():
        setattr(p, k, v)
    p.verbose = None
    P = pt.Particles(p)
    far = [x for x in (120, 126, 250, 254, 32766, 65534) if x < c['size'] - 4]
    mid = [2] * len(far)
    P.generate_particles(len(far), *((far, mid) if c['rows'] else (mid, far)), method='exact')
    for _ in range(6):
        w = P.run_iteration()
    for i in range(len(far)):
        xs, ys = w['xinds'][i], w['yinds'][i]
        for a in range(len(xs)):
            need(0 <= xs[a] < shape[0] and 0 <= ys[a] < shape[1], "C01 particle %d recorded outside the %dx%d grid: %r" % ((i,) + shape + ((xs[a], ys[a]),)))
            if a:
                need(max(abs(xs[a] - xs[a - 1]), abs(ys[a] - ys[a - 1])) == 1, "C01 particle %d moved from %r to %r" % (i, (xs[a - 1], ys[a - 1]), (xs[a], ys[a])))


def run(c):
    np.random.seed(c['seed'])
    if c['kind'] == 'wide':
        return wide(c)
    P = build(c['m'])
    L, W = P.depth.shape
    P.generate_particles(len(c['xs']), c['xs'], c['ys'], method='exact')
    ctx = Draws([c['draw']]) if c.get('draw') is not None else contextlib.nullcontext()
    with ctx:
        for op in c['ops']:
            w0 = snap(P.walk_data)
            wt = np.nan_to_num(np.array(P.weight, dtype=float))
            w = P.run_iteration() if op == 'it' else P.run_iteration(target_time=w0['travel_times'][0][-1] + op[1], max_iter=op[2])
            for i in range(len(c['xs'])):
                xs, ys = w['xinds'][i], w['yinds'][i]
                for a in range(len(xs)):
                    need(int(xs[a]) == xs[a] and int(ys[a]) == ys[a], "C01 particle %d entry %d is not an index pair: %r" % (i, a, (xs[a], ys[a])))
                    need(0 <= xs[a] < L and 0 <= ys[a] < W, "C01 particle %d recorded outside the %dx%d grid: %r" % (i, L, W, (xs[a], ys[a])))
                    if a:
                        dx, dy = abs(xs[a] - xs[a - 1]), abs(ys[a] - ys[a - 1])
                        need(max(dx, dy) == 1, "C01 particle %d moved from %r to %r" % (i, (xs[a - 1], ys[a - 1]), (xs[a], ys[a])))
                x, y = w0['xinds'][i][-1], w0['yinds'][i][-1]
                row = wt[x, y, :]
                if not any(row[k] > 0 for k in range(9) if k != 4):
                    need(len(xs) == len(w0['xinds'][i]), "C01 particle %d moved from %r although no direction is admissible" % (i, (x, y)))
