from common import *
from c03 import expected, cases as c03_cases


def cases(rng, tier):
    for c in c03_cases(rng, tier):
        c['kind'] = 'blend'
        yield c
    n = 60 if tier == 'quick' else 500
    for k in range(n):
        m = rand_model(rng, wet=rng.choice(['wet', 'mixed']))
        L, W = shape_of(m)
        which = k % 3
        m2 = copy.deepcopy(m)
        if which == 0:
            m['gamma'] = m2['gamma'] = 1
            m2['qx'], m2['qy'], _ = rand_flow(rng, L, W)
        elif which == 1:
            m['gamma'] = m2['gamma'] = 0
            m2['stage'] = grid(rng, L, W, lambda: round(rng.uniform(0, 10), 5))
        else:
            # same water surface, discharge and wet pattern; wet depths scaled by monotone noise
            m['theta'] = m2['theta'] = 0
            m2['depth'] = [[v if not (v > m['dry_depth']) else v + rng.uniform(0, 3) for v in r] for r in m['depth']]
        m['cell_type'] = m2['cell_type'] = m.get('cell_type') or grid(rng, L, W, lambda: 0)
        yield dict(kind='indep', which=which, m=m, m2=m2)


def run(c):
    P = build(c['m'])
    e = expected(P)
    w = np.asarray(P.weight)
    L, W = P.depth.shape
    if c['kind'] == 'blend':
        for i in range(1, L - 1):
            for j in range(1, W - 1):
                if not (P.depth[i, j] > P.dry_depth) or not np.nansum(e[i, j]) > 0 or np.any(np.isnan(e[i, j])):
                    continue
                for k in range(9):
                    need(close(w[i, j, k], e[i, j, k], 1e-6, 1e-12), "C04 cell (%d,%d) direction %d: weight %r, blend gives %r" % (i, j, k, w[i, j, k], e[i, j, k]))
        return
    Q = build(c['m2'])
    w2 = np.asarray(Q.weight)
    e2 = expected(Q)
    for i in range(1, L - 1):
        for j in range(1, W - 1):
            if P.depth[i, j] > P.dry_depth and np.nansum(e[i, j]) > 0 and np.nansum(e2[i, j]) > 0 \
                    and not np.any(np.isnan(e[i, j])) and not np.any(np.isnan(e2[i, j])):
                need(np.allclose(w[i, j], w2[i, j], rtol=1e-6, atol=1e-12),
                     "C04 %s: weights at (%d,%d) changed from %r to %r" % (['gamma=1 but discharge matters', 'gamma=0 but stage matters', 'theta=0 but depth matters'][c['which']],
                                                                        i, j, w[i, j].tolist(), w2[i, j].tolist()))
