from common import *
import dorado.spatial as sp


def cases(rng, tier):
    for k in range(200 if tier == 'quick' else 2500):
        L, W = rng.randint(1, 7), rng.randint(1, 7)
        s = rng.choice(['rand', 'const', 'levels', 'outlier'])
        cst = rng.choice([0.0, 3.5, 1 / 3.0])
        nanp = rng.choice([0, .2, .6])

        def cell():
            if rng.random() < nanp:
                return NAN
            if s == 'const':
                return cst
            if s == 'levels':
                return float(rng.randint(0, 3))
            if s == 'outlier' and rng.random() < .15:
                return 1000.0
            return round(rng.uniform(0, 5), 4)
        yield dict(kind='mad', a=grid(rng, L, W, cell), win=rng.choice([1, 3, 5, 4, 2, 7]), th=rng.choice([3, 1, 2.0, 1.5, 1, 10]))
    for k in range(100 if tier == 'quick' else 800):
        n = rng.randint(1, 9)
        inc = [rng.choice([0.0, rng.random()]) for _ in range(n)]
        tot = sum(inc) or 1.0
        cdf = []
        a = 0.0
        for v in inc:
            a += v / tot
            cdf.append(a)
        yield dict(kind='pct', cdf=cdf, x=[float(i) * 1.5 + 2 for i in range(n)], p=rng.choice([.5, .75, .9, 0.0, 1.1, rng.choice(cdf)]))
    for k in range(25 if tier == 'quick' else 200):
        ny, nx, f = rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 2])
        if k % 6 == 0:
            ny, nx, f = rng.choice([(5, 2), (6, 1), (2, 6), (5, 3)]) + (1,)
        sz = rng.choice([1, 1, 1, 1e-3, 1e6])
        data = []
        for _ in range(ny * nx):
            r = rng.random()
            if r < .2:
                data.append(None)
            elif r < .3:
                data.append([])
            elif r < .45:
                data.append([0.0] * 3 + [round(rng.uniform(1, 9), 2) for _ in range(rng.randint(0, 3))] + [5.5, 5.5])
            elif r < .55:
                data.append([0.0, 2.0, 3.0, 4.0, 5.0, 6.5][:rng.randint(5, 6)])
            else:
                data.append([rng.choice([0.0, round(rng.uniform(1, 900), 3), NAN if rng.random() < .2 else 7.0]) for _ in range(rng.randint(6, 15))])
        data = [[v * sz for v in d] if d else d for d in data]
        yield dict(kind='thr', data=data, ny=ny, nx=nx, f=f, ex=[rng.randrange(f), rng.randrange(f)], td=rng.choice([1, 60, 3600.0, .5, 86400]), win=rng.choice([1, 3, 5]), th=3)


def run(c):
    if c['kind'] == 'mad':
        a = np.array(c['a'], dtype=float).reshape(len(c['a']), -1)
        a0 = a.copy()
        r = np.asarray(sp.median_absolute_deviation_filter(a, c['win'], c['th']))
        need(same(a, a0), "C22 the filter changed its input")
        need(r.shape == a.shape, "C22 the filter changed the shape")
        h = c['win'] // 2
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if np.isnan(a[i, j]):
                    need(np.isnan(r[i, j]), "C22 NaN cell (%d,%d) became %r" % (i, j, r[i, j]))
                    continue
                w = a[max(0, i - h):i + h + 1, max(0, j - h):j + h + 1]
                w = w[~np.isnan(w)]
                need(w.min() - 1e-9 <= r[i, j] <= w.max() + 1e-9, "C22 cell (%d,%d): %r outside its window [%r, %r]" % (i, j, r[i, j], w.min(), w.max()))
        f = a[~np.isnan(a)]
        if f.size and f.min() == f.max():
            need(np.allclose(r[~np.isnan(a)], f[0]), "C22 a constant field was changed")
        return
    if c['kind'] == 'pct':
        cdf, x = np.array(c['cdf']), np.array(c['x'])
        r = sp.percentile_from_cdf(cdf, x, c['p'])
        hit = [i for i in range(len(cdf)) if cdf[i] >= c['p']]
        if not hit:
            need(r != r, "C22 percentile %r not reached but got %r" % (c['p'], r))
        else:
            need(r == x[hit[0]], "C22 percentile %r of %r is %r, expected %r" % (c['p'], c['cdf'], r, x[hit[0]]))
        return
    data = [float('nan') if d is None else list(d) for d in c['data']]
    d0 = snap(data)
    el = np.zeros((c['ny'] * c['f'] + c['ex'][0], c['nx'] * c['f'] + c['ex'][1]))
    E = sp.compute_thresholds(data, el, c['td'], c['f'], c['win'], c['th'])
    need(same(data, d0), "C22 compute_thresholds changed the exposure data")
    need(len(E) == 3, "C22 %d threshold maps" % len(E))
    for e in E:
        need(np.shape(e) == (c['ny'], c['nx']), "C22 threshold map has shape %r" % (np.shape(e),))
    from scipy.stats import gaussian_kde
    for i in range(c['ny']):
        for j in range(c['nx']):
            d = d0[i * c['nx'] + j]
            v = [E[k][i, j] for k in range(3)]
            f = [x for x in d if x != 0 and x == x] if isinstance(d, list) else []
            if len(set(f)) < 5:
                need(all(np.isnan(x) for x in v), "C22 chunk (%d,%d) with too little data gives %r" % (i, j, v))
                continue
            need(not any(np.isnan(x) for x in v), "C22 chunk (%d,%d) has data but gives %r" % (i, j, v))
            if c['win'] == 1:
                need(v[0] <= v[1] <= v[2], "C22 chunk (%d,%d): E50..E90 = %r" % (i, j, v))
                x = np.linspace(min(f), max(f), 1000)
                cdf = np.cumsum(gaussian_kde(f)(x))
                cdf /= cdf[-1]
                for p, e in zip((.5, .75, .9), v):
                    t = x[np.searchsorted(cdf, p)]
                    need(abs(e * c['td'] - t) <= 2.01 * (x[1] - x[0]) + 1e-9 * abs(t), "C22 chunk (%d,%d): E%d = %r, expected %r" % (i, j, p * 100, e, t / c['td']))
