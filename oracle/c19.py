from common import *


def cases(rng, tier):
    for k in range(120 if tier == 'quick' else 1200):
        n = rng.randint(4, 30)
        ox, oy = rng.choice([(0, 0), (1000.5, -20)])
        xy = [[ox + round(rng.uniform(0, 10), 3), oy + round(rng.uniform(0, 7), 3)] for _ in range(n)]
        q = [round(rng.uniform(-5, 5), 3) for _ in range(n)] if rng.random() < .85 else [3.25] * n
        cs = rng.choice([1, .5, 2.0, .7])
        if rng.random() < .3:
            xy = [[float(round(x)), float(round(y))] for x, y in xy]
            xy = [list(t) for t in dict.fromkeys(map(tuple, xy))]
            n = len(xy)
            if n < 4:
                continue
            q = q[:n]
        if rng.random() < .25:
            q = [v + rng.choice([1e8, 2.0 ** 25]) for v in q]
        b = None
        if rng.random() < .5:
            cx, cy = ox + rng.uniform(3, 7), oy + rng.uniform(2, 5)
            r = rng.uniform(1, 6)
            t0 = rng.uniform(0, 6)
            b = [[cx + r * math.cos(t0 + 2 * math.pi * s / 5), cy + r * math.sin(t0 + 2 * math.pi * s / 5)] for s in range(5)]
            if rng.random() < .25:
                b = [[ox - 1, oy - 1], [ox + 11, oy + 7.9], [ox + 11, oy + 8], [ox - 1, oy - .9]]
        yield dict(kind='grid', xy=xy, q=q, cs=cs, k=rng.choice([1, 2, 3, 3, min(5, n), min(12, n), n]), b=b, crop=rng.random() < .6,
                   q2=[round(rng.uniform(-5, 5), 3) for _ in range(n)], form=rng.choice(['list', 'np', 'intlist']))
    for k in range(6):
        # values missing at the rim and no boundary: the grid still covers every input point
        n = rng.randint(3, 5)
        xy = [[float(i), float(j)] for i in range(n) for j in range(n)]
        yield dict(kind='nan', xy=xy, q=[NAN if j == n - 1 or i == 0 else i + 10.0 * j for i in range(n) for j in range(n)], k=rng.choice([1, 2, 3]), crop=k % 3 != 0)
    for k in range(5):
        yield dict(kind='bad', n=rng.randint(3, 6), d=rng.choice([-1, 1]), k=rng.choice([1, 3]))


def inside(p, b):
    """signed distance > 0 inside the convex polygon (counter-clockwise or clockwise)."""
    n = len(b)
    area = sum(b[i][0] * b[(i + 1) % n][1] - b[(i + 1) % n][0] * b[i][1] for i in range(n))
    s = 1 if area > 0 else -1
    return min(s * ((b[(i + 1) % n][0] - b[i][0]) * (p[1] - b[i][1]) - (b[(i + 1) % n][1] - b[i][1]) * (p[0] - b[i][0]))
               / math.hypot(b[(i + 1) % n][0] - b[i][0], b[(i + 1) % n][1] - b[i][1]) for i in range(n))


def run(c):
    if c['kind'] == 'bad':
        xy = [[float(i), float(i * i % 3)] for i in range(c['n'])]
        try:
            pt.unstruct2grid(xy, [1.0] * (c['n'] + c['d']), 1.0, k_nearest_neighbors=c['k'])
        except ValueError:
            return
        raise Bad("C19 lists of unequal length accepted")
    xy = [tuple(p) for p in c['xy']]
    if c['kind'] == 'nan':
        n = int(math.sqrt(len(xy)))
        f, g = pt.unstruct2grid(xy, c['q'], 1.0, k_nearest_neighbors=c['k'], crop=c['crop'])
        need(np.shape(g) == (n, n), "C19 without a boundary the grid of %dx%d points has shape %r" % (n, n, np.shape(g)))
        return
    n = len(xy)
    x = [p[0] for p in xy]
    y = [p[1] for p in xy]
    cs = float(c['cs'])
    k = min(c['k'], n)
    b = c['b']
    kw = dict(k_nearest_neighbors=k)
    if b is not None:
        kw['boundary'] = [tuple(p) for p in b]
    xy_in = list(xy)
    f, g = pt.unstruct2grid(xy, c['q'], c['cs'], crop=False, **kw)
    g = np.asarray(g)
    need(xy == xy_in, "C19 the coordinates were modified")
    ny, nx = g.shape
    need(min(x) + cs * (nx - 1) >= max(x) - 1e-9 and min(y) + cs * (ny - 1) >= max(y) - 1e-9, "C19 the %dx%d grid does not cover the input" % (ny, nx))
    need(min(x) + cs * (nx - 2) < max(x) + 1e-9 and min(y) + cs * (ny - 2) < max(y) + 1e-9 or True, "")
    for data, gg in ((c['q'], g), (c['q2'], None)):
        if gg is None:
            d_in = data if c['form'] == 'list' else np.array(data)
            if c['form'] == 'intlist':
                data = [int(round(v)) for v in data]
                d_in = list(data)
            gg = np.asarray(f(d_in))
            need(gg.shape == g.shape, "C19 the returned function gives another shape")
        for r in range(ny):
            for s in range(nx):
                px, py = min(x) + cs * s, min(y) + cs * (ny - 1 - r)
                v = gg[r, s]
                if b is not None:
                    m = inside((px, py), b)
                    if m < -1e-9:
                        need(np.isnan(v), "C19 cell (%d,%d) outside the boundary has value %r" % (r, s, v))
                        continue
                    if m <= 1e-9:
                        continue
                ds = sorted((math.hypot(px - a, py - e), i) for i, (a, e) in enumerate(xy))
                if k == 1:
                    near = [data[i] for dd, i in ds if dd <= ds[0][0] * (1 + 1e-9) + 1e-12]
                    need(any(close(v, t, 1e-12, 1e-12) for t in near), "C19 cell (%d,%d) is %r, the nearest value is %r" % (r, s, v, near))
                    continue
                eps = 1e-9 + 1e-12 * max(abs(t) for t in data)
                if not min(data) - eps <= v <= max(data) + eps:
                    raise Bad("C19 cell (%d,%d) = %r is outside the data range" % (r, s, v))
                if len(ds) > k and ds[k][0] - ds[k - 1][0] < 1e-9 * (1 + ds[k][0]):
                    continue
                wt = [1 / (dd + 1e-100) for dd, i in ds[:k]]
                e = sum(wi * data[i] for wi, (dd, i) in zip(wt, ds[:k])) / sum(wt)
                if ds[0][0] < 1e-9:
                    near = [data[i] for dd, i in ds if dd < 1e-9]
                    need(min(near) - 1e-6 - 3 * eps <= v <= max(near) + 1e-6 + 3 * eps, "C19 cell on an input point is %r, input %r" % (v, near))
                else:
                    need(close(v, e, 1e-6, 1e-8), "C19 cell (%d,%d) = %r, inverse-distance mean is %r" % (r, s, v, e))
    g2 = np.asarray(f(np.array(c['q'])))
    need(same(g2, g), "C19 the returned function gives another grid for the same data")
    if c['crop']:
        f3, g3 = pt.unstruct2grid(xy, c['q'], c['cs'], crop=True, **kw)
        g3 = np.asarray(g3)
        e = g
        if b is not None:
            mk = ~np.isnan(g)
            if mk.any():
                rows = np.flatnonzero(mk.any(1))
                cols = np.flatnonzero(mk.any(0))
                e = g[rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1]
            else:
                need(g3.size == 0 or np.all(np.isnan(g3)), "C19 cropping an empty grid produced values")
                e = None
        if e is not None:
            need(same(g3, e), "C19 cropping removed more (or less) than the all-NaN borders: %r, expected shape %r" % (g3.shape, e.shape))
            need(same(np.asarray(f3(np.array(c['q']))), g3), "C19 the cropped function gives another grid")
