from common import *
from hist import *


def cases(rng, tier):
    for k in range(250 if tier == 'quick' else 3000):
        L, W = rng.randint(2, 8), rng.randint(2, 8)
        if k % 50 == 7:
            L, W = 1, 2
        sigma = rng.choice([0, 0, 0, 0, .7, 1.5])
        yield dict(kind='area', w=rand_hist(rng, L, W, n=rng.randint(1, 6), minlen=rng.choice([1, 6]), long=k % 25 == 7), L=L, W=W, sigma=sigma, clip=rng.choice([100, 100, 99.5, 90, 50, 75.0]))


def run(c):
    w = snap(c['w'])
    r = np.asarray(pt.nourishment_area(w, (c['L'], c['W']), sigma=c['sigma'], clip=c['clip']))
    need(same(w, c['w']), "C15 the walk data was modified")
    need(r.shape == (c['L'], c['W']), "C15 output has shape %r" % (r.shape,))
    f = r[~np.isnan(r)]
    need(bool(np.all((f >= -1e-12) & (f <= 1 + 1e-12))), "C15 values outside [0, 1]")
    if c['sigma'] > 0:
        return
    n = np.zeros((c['L'], c['W']))
    for X, Y in zip(c['w']['xinds'], c['w']['yinds']):
        for x, y in zip(X, Y):
            n[x, y] += 1
    if np.nanpercentile(n, c['clip']) == 0:
        need(bool(np.all(np.isnan(r))), "C15 clip percentile is 0 but the result is not all NaN")
        return
    need(bool(np.all(np.isnan(r) == (n == 0))), "C15 NaN pattern differs from the unvisited cells")
    need(bool(np.all(f > 0)), "C15 a visited cell has value <= 0")
    v = [(n[i, j], r[i, j]) for i in range(c['L']) for j in range(c['W']) if n[i, j] > 0]
    for a, ra in v:
        for b, rb in v:
            need(not (a > b and ra < rb - 1e-12), "C15 %d visits score %r, %d visits score %r" % (a, ra, b, rb))
            need(not (a == b and abs(ra - rb) > 1e-12), "C15 equal visits score differently")
    if c['clip'] == 100:
        for a, ra in v:
            need(close(ra, a / n.max()), "C15 %d of %d visits score %r" % (a, n.max(), ra))
    else:
        cap = np.nanpercentile(n, c['clip'])
        for a, ra in v:
            need(close(ra, min(a, cap) / min(n.max(), cap), 1e-6), "C15 %d visits with cap %r score %r" % (a, cap, ra))
