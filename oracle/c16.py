from common import *
from hist import *


def cases(rng, tier):
    for k in range(250 if tier == 'quick' else 3000):
        L, W = rng.randint(2, 7), rng.randint(2, 7)
        if k % 50 == 7:
            L, W = 1, 2
        yield dict(kind='time', w=rand_hist(rng, L, W, n=rng.randint(1, 6), minlen=rng.choice([1, 6]), long=k % 25 == 7), L=L, W=W, clip=rng.choice([100, 100, 100, 99.5, 90, 50]), sigma=rng.choice([0, 0, 0, .7]))


def run(c):
    w = snap(c['w'])
    r = np.asarray(pt.nourishment_time(w, (c['L'], c['W']), sigma=c['sigma'], clip=c['clip']))
    need(same(w, c['w']), "C16 the walk data was modified")
    need(r.shape == (c['L'], c['W']), "C16 output has shape %r" % (r.shape,))
    n = np.zeros((c['L'], c['W']))
    t = np.zeros((c['L'], c['W']))
    for X, Y, T in zip(c['w']['xinds'], c['w']['yinds'], c['w']['travel_times']):
        for e in range(1, len(X) - 1):
            n[X[e], Y[e]] += 1
            t[X[e], Y[e]] += .5 * (T[e] - T[e - 1]) + .5 * (T[e + 1] - T[e])
    mean = np.where(n > 0, t / np.maximum(n, 1), 0.0)
    cap = np.nanpercentile(mean, c['clip'])
    mean = np.minimum(mean, cap)
    if c['sigma'] > 0:
        f = r[~np.isnan(r)]
        need(f.size == 0 or (f.min() >= -1e-9 and f.max() <= mean.max() + 1e-9), "C16 smoothed values outside the data range")
        return
    for i in range(c['L']):
        for j in range(c['W']):
            if mean[i, j] == 0:
                need(np.isnan(r[i, j]), "C16 cell (%d,%d) without residence time has value %r" % (i, j, r[i, j]))
            else:
                need(close(r[i, j], mean[i, j], 1e-7, 1e-9), "C16 cell (%d,%d): %r, expected %r (%d visits)" % (i, j, r[i, j], mean[i, j], n[i, j]))
