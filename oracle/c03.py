from common import *


def expected(P):
    """(regular weights by the documented blend, dead-end mask) per cell, from the object's own fields."""
    st, d, ct = P.stage, P.depth, P.cell_type
    L, W = st.shape
    g, th, dry = P.gamma, P.theta, P.dry_depth
    dist = np.array(P.distances, dtype=float).ravel()
    jv = np.array(P.jvec, dtype=float).ravel()
    iv = np.array(P.ivec, dtype=float).ravel()
    out = np.zeros((L, W, 9))
    for i in range(1, L - 1):
        for j in range(1, W - 1):
            S = np.zeros(9)
            I = np.zeros(9)
            adm = np.zeros(9, bool)
            for k, (a, b) in enumerate(D8):
                n = (i + a, j + b)
                adm[k] = d[n] > dry and ct[n] != 2
                if not adm[k]:
                    continue
                s = (st[i, j] - st[n]) / dist[k]
                S[k] = s if (s > 0 or s != s) else 0
                q = (P.qx[i, j] * jv[k] + P.qy[i, j] * iv[k]) / dist[k]
                I[k] = q if q > 0 else 0
            if np.nansum(S) > 0:
                S = S / np.nansum(S)
            if np.nansum(I) > 0:
                I = I / np.nansum(I)
            for k, (a, b) in enumerate(D8):
                if adm[k]:
                    out[i, j, k] = d[i + a, j + b] ** th * (g * S[k] + (1 - g) * I[k])
    return out


def cases(rng, tier):
    n = 250 if tier == 'quick' else 3000
    for k in range(n):
        m = rand_model(rng)
        if rng.random() < .2:
            m['theta'] = rng.choice([0, .25, 3.0, 12.0, 12.0])
        if k % 10 == 0:
            # tiny positive weights: shallow water, a large exponent and some deep land
            L, W = shape_of(m)
            m['theta'] = rng.choice([8.0, 12.0, 25.0])
            m['depth'] = [[rng.choice([.2, .15, .3, 5.0]) for _ in range(W)] for _ in range(L)]
            m['cell_type'] = [[2 if m['depth'][i][j] == 5.0 and rng.random() < .8 else 0 for j in range(W)] for i in range(L)]
        elif rng.random() < .15:
            L, W = shape_of(m)
            m['depth'] = rand_depth(rng, L, W, 'levels')
        yield dict(kind='weights', m=m)


def run(c):
    P = build(c['m'])
    w = np.asarray(P.weight)
    L, W = P.depth.shape
    need(w.shape == (L, W, 9), "C03 weight array has shape %r" % (w.shape,))
    need(not np.any(w < 0), "C03 negative weight")
    for i in range(L):
        for j in range(W):
            if i in (0, L - 1) or j in (0, W - 1):
                need(np.all(w[i, j] == 0), "C03 border cell (%d,%d) has weights %r" % (i, j, w[i, j].tolist()))
    e = expected(P)
    for i in range(1, L - 1):
        for j in range(1, W - 1):
            nb = [(i + a, j + b) for a, b in D8]
            if np.nansum(e[i, j]) > 0:
                for k, n in enumerate(nb):
                    if P.depth[n] <= P.dry_depth or P.cell_type[n] == 2:
                        need(w[i, j, k] == 0, "C03 cell (%d,%d): weight %r towards the dry or land neighbour %r" % (i, j, w[i, j, k], n))
                need(np.nansum(w[i, j]) > 0, "C03 cell (%d,%d) has admissible directions but no weight" % (i, j))
            else:
                mx = max(P.depth[n] for n in nb)
                for k, n in enumerate(nb):
                    pos = w[i, j, k] > 0
                    need(bool(pos) == bool(P.depth[n] == mx), "C03 dead end (%d,%d): weight %r towards %r of depth %r, deepest is %r"
                         % (i, j, w[i, j, k], n, P.depth[n], mx))
