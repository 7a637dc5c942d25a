from common import *


def cases(rng, tier):
    for k in range(400 if tier == 'quick' else 5000):
        L, W = rng.randint(1, 500), rng.randint(1, 500)
        o = [rng.choice([0, 0.0, rng.uniform(-1e5, 1e5), 350000.5]), rng.choice([0, rng.uniform(-1e5, 1e5), 3.2e6])]
        cs = rng.choice([1, 5, 50.0, .1, rng.uniform(.05, 300), 1 / 3.0])
        n = rng.randint(1, 4)
        xi = [[rng.randrange(L) for _ in range(rng.randint(1, 5))] for _ in range(n)]
        yi = [[rng.randrange(W) for _ in r] for r in xi]
        cc = [[o[0] + cs * rng.uniform(-3, W + 3), o[1] + cs * rng.uniform(-3, L + 3)] for _ in range(rng.randint(0, 5))]
        cc += [[o[0] + cs * (rng.randint(0, W) + .5), o[1] + cs * (rng.randint(0, L) + .5)] for _ in range(2)]
        if k % 4 == 0:
            # exact arithmetic: cells of size 1 at the origin, points a little on either side of the middle between two cells
            o, cs = [0.0, 0.0], 1.0
            cc = [[rng.randrange(W) + .5 + rng.choice([-1, 1]) * 2.0 ** -rng.choice([12, 22, 32]), rng.randrange(L) + .5 + rng.choice([-1, 1]) * 2.0 ** -rng.choice([12, 22, 32])] for _ in range(4)]
        yield dict(kind='rt', L=L, W=W, o=o, cs=cs, x=xi, y=yi, cc=cc, tup=rng.random() < .5)


def run(c):
    L, W, o, cs = c['L'], c['W'], c['o'], c['cs']
    size = (L, W) if c['tup'] else [L, W]
    wd = {'xinds': snap(c['x']), 'yinds': snap(c['y']), 'travel_times': [[0.0] * len(r) for r in c['x']], 'depth': [[1.5] * len(r) for r in c['x']]}
    w0 = snap(wd)
    out = pt.ind2coord(wd, o, size, cs)
    for k in w0:
        need(same(out[k], w0[k]), "C13 ind2coord changed %r" % k)
    tol = 1e-9 * (abs(o[0]) + abs(o[1]) + cs * (L + W)) + 1e-12
    if o == [0.0, 0.0] and cs == 1.0:
        tol = 0.0
    flat = []
    for i in range(len(c['x'])):
        need(len(out['xcoord'][i]) == len(c['x'][i]) == len(out['ycoord'][i]), "C13 coordinate lists have a different length")
        for e in range(len(c['x'][i])):
            r, q = c['x'][i][e], c['y'][i][e]
            X, Y = out['xcoord'][i][e], out['ycoord'][i][e]
            need(abs(X - (o[0] + q * cs)) <= tol and abs(Y - (o[1] + (L - r) * cs)) <= tol, "C13 (%d,%d) -> (%r,%r), expected (%r,%r)" % (r, q, X, Y, o[0] + q * cs, o[1] + (L - r) * cs))
            flat.append(((r, q), (X, Y)))
    need(len(out['xcoord']) == len(c['x']) and len(out['ycoord']) == len(c['x']), "C13 number of particles changed")
    back = pt.coord2ind([p for _, p in flat], o, size, cs)
    need(len(back) == len(flat), "C13 coord2ind changed the number of locations")
    for (ij, p), b in zip(flat, back):
        need((int(b[0]), int(b[1])) == ij, "C13 %r -> %r -> %r" % (ij, p, b))
    if c['cc']:
        b = pt.coord2ind([tuple(p) for p in c['cc']], o, size, cs)
        need(len(b) == len(c['cc']), "C13 coord2ind changed the number of locations")
        for p, ij in zip(c['cc'], b):
            need(abs(o[0] + ij[1] * cs - p[0]) <= cs / 2 + tol and abs(o[1] + (L - ij[0]) * cs - p[1]) <= cs / 2 + tol,
                 "C13 %r -> %r is more than half a cell away" % (p, ij))
