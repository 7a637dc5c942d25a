from common import *


def cases(rng, tier):
    n = 200 if tier == 'quick' else 2500
    for k in range(n):
        r = k % 4
        if r == 0:
            L, W = rng.randint(3, 8), rng.randint(3, 8)
            ct = [[rng.choice([0, 0, 0, 0, 1, 2, -1 if rng.random() < .3 else 0]) for _ in range(W)] for _ in range(L)]
            N = rng.randint(1, 6)
            cur = [[rng.randrange(L), rng.randrange(W)] for _ in range(N)]
            new = [[a + rng.choice([-1, 0, 1]), b + rng.choice([-1, 0, 1])] for a, b in cur]
            yield dict(kind='cfb', ct=ct, cur=cur, new=new, form=rng.choice(['array', 'list']))
        elif r in (1, 2):
            m = rand_model(rng)
            L, W = shape_of(m)
            N = rng.randint(1, 8)
            xs = [rng.choice([0, 1, 2, L - 3, L - 2, L - 1, rng.randrange(L)]) for _ in range(N)]
            ys = [rng.choice([0, 1, 2, W - 3, W - 2, W - 1, rng.randrange(W)]) for _ in range(N)]
            ops = [rng.choice(['it', 'it', ['t', rng.choice([.5, 5., 500.]), rng.choice([3, 8])]]) for _ in range(rng.randint(1, 6))]
            yield dict(kind='walk', m=m, xs=[min(max(x, 0), L - 1) for x in xs], ys=[min(max(y, 0), W - 1) for y in ys], ops=ops, seed=rng.randrange(10 ** 6))
        else:
            m = rand_model(rng, big=True, steep=True, diff=0.0, wet='wet')
            m['qx'], m['qy'], _ = rand_flow(rng, *shape_of(m), style='rand')
            L, W = shape_of(m)
            N = rng.randint(2, 6)
            yield dict(kind='indep', m=m, xs=[rng.randrange(L) for _ in range(N)], ys=[rng.randrange(W) for _ in range(N)],
                       n=rng.randint(1, 6), target=rng.choice([None, None, 20.0]))


def run(c):
    if c['kind'] == 'cfb':
        if not hasattr(lw, 'check_for_boundary'):
            return
        ct = np.array(c['ct'])
        new = np.array(c['new'], dtype=np.int32) if c['form'] == 'array' else [list(p) for p in c['new']]
        out = lw.check_for_boundary(new, [list(p) for p in c['cur']], ct)
        need(len(out) == len(c['cur']), "C02 check_for_boundary changed the number of particles")
        for i, (a, b) in enumerate(c['cur']):
            exp = [a, b] if near_edge(ct, a, b) else c['new'][i]
            need([int(out[i][0]), int(out[i][1])] == exp, "C02 check_for_boundary: particle %d at %r (edge near: %s) got %r, expected %r"
                 % (i, (a, b), near_edge(ct, a, b), list(map(int, out[i])), exp))
        return
    P = build(c['m'])
    ct = np.array(P.cell_type)
    N = len(c['xs'])
    if c['kind'] == 'indep':
        def go(xs, ys):
            P = build(c['m'])
            np.random.seed(1)
            P.generate_particles(len(xs), xs, ys, method='exact')
            for k in range(c['n']):
                w = P.run_iteration() if c['target'] is None else P.run_iteration(target_time=c['target'] * (k + 1), max_iter=20)
            return w
        wt = np.nan_to_num(P.weight)
        both = go(c['xs'], c['ys'])
        for i in range(N):
            one = go([c['xs'][i]], [c['ys'][i]])
            clean = True
            for x, y in list(zip(one['xinds'][0], one['yinds'][0])) + list(zip(both['xinds'][i], both['yinds'][i])):
                nine = wt[x, y, :]
                if nine.max() > 0 and np.sum(nine == nine.max()) > 1:
                    clean = False
            if clean:
                for k in BASE:
                    need(same(one[k][0], both[k][i]), "C02 particle %d alone and among others: %s %r vs %r" % (i, k, one[k][0], both[k][i]))
        return
    np.random.seed(c['seed'])
    P.generate_particles(N, c['xs'], c['ys'], method='exact')
    for op in c['ops']:
        w0 = snap(P.walk_data)
        wt = np.nan_to_num(np.array(P.weight, dtype=float))
        w = P.run_iteration() if op == 'it' else P.run_iteration(target_time=w0['travel_times'][0][-1] + op[1], max_iter=op[2])
        for i in range(N):
            x, y = w0['xinds'][i][-1], w0['yinds'][i][-1]
            if near_edge(ct, x, y):
                for k in w0:
                    need(same(w0[k][i], w[k][i]), "C02 particle %d next to an edge cell at %r changed: %s %r -> %r" % (i, (x, y), k, w0[k][i], w[k][i]))
            else:
                row = wt[x, y, :]
                if op == 'it' and row[4] <= 0 and np.any(row > 0) and (x, y) != (0, 0):
                    need(len(w['xinds'][i]) == len(w0['xinds'][i]) + 1,
                         "C02 particle %d at %r is not next to an edge cell but was not moved" % (i, (x, y)))
            # nothing recorded after an edge contact
            for a in range(len(w0['xinds'][i]), len(w['xinds'][i])):
                need(not near_edge(ct, w['xinds'][i][a - 1], w['yinds'][i][a - 1]), "C02 particle %d moved on after standing next to an edge cell" % i)
