from common import *
from c05 import rand_w, row_obj, clean


def cases(rng, tier):
    n = 150 if tier == 'quick' else 1500
    for k in range(n):
        w = rand_w(rng)
        r = rng.random()
        if r < .3:
            v = rng.choice([.1, .5, 2.0])
            for q in rng.sample(range(9), rng.randint(2, 5)):
                w[q] = v
            w = [min(x, v) if x == x else x for x in w]
        elif r < .4:
            w[4] = 100.0
        yield dict(kind='steep', w=w, direct=rng.random() < .3)
    for k in range(n // 4):
        yield dict(kind='walk', m=rand_model(rng, steep=True), seed=rng.randrange(10 ** 6), n=4)


def check(w, r, what):
    w = clean(w)
    mx = max(w)
    ok = [k for k in range(9) if k != 4 and w[k] == mx and mx > 0]
    if ok:
        need(r in ok, "%s chose direction %r; the greatest weight %r is at %r (weights %r)" % (what, r, mx, ok, w))
    else:
        need(r == 4, "%s chose %r though no neighbour attains a positive greatest weight (weights %r)" % (what, r, w))
    return ok


def run(c):
    if c['kind'] == 'steep':
        w = c['w']
        if c.get('direct') and hasattr(lw, 'steep_descent'):
            a = np.array(w, dtype=float)
            pick = lambda: int(lw.steep_descent(a.copy()))
        else:
            P = row_obj(w, True)
            pick = lambda: int(lw.get_weight(P, (1, 2)))
        sh, tol = shares(pick, 9, 241)
        ok = None
        for r in sh:
            ok = check(w, r, 'C06')
        if ok:
            for k in ok:
                need(abs(sh.get(k, 0.0) - 1.0 / len(ok)) <= tol, "C06 ties: direction %d has share %.3f among %d tied (weights %r)" % (k, sh.get(k, 0.0), len(ok), w))
        for f in (0.0, 1 - 1e-15):
            with Draws([f]):
                check(w, pick(), 'C06 (draw fraction %r)' % f)
        return
    P = build(c['m'])
    wt = np.array(P.weight, dtype=float)
    L, W = P.depth.shape
    np.random.seed(c['seed'])
    xs = [i for i in range(L) for j in range(W)]
    ys = [j for i in range(L) for j in range(W)]
    P.generate_particles(len(xs), xs, ys, method='exact')
    for it in range(c['n']):
        w0 = snap(P.walk_data)
        w1 = P.run_iteration()
        for p in range(len(xs)):
            x, y = w0['xinds'][p][-1], w0['yinds'][p][-1]
            if near_edge(np.array(P.cell_type), x, y):
                continue
            d = (w1['xinds'][p][-1] - x, w1['yinds'][p][-1] - y)
            need(d in D8, "C06 jump %r" % (d,))
            check(wt[x, y, :].tolist(), D8.index(d), 'C06 particle at (%d,%d), step %d' % (x, y, it))
