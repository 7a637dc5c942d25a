from common import *


def rand_hist(rng, L, W, n=None, extra=(), minlen=1, jump=False, long=False, odd=False):
    """long: one history has hundreds of entries; odd: times of another size, starting below zero, or not in order"""
    sc, base, dec = (rng.choice([1, 1e-11, 1e8]), rng.choice([0, 0, -7.0, 1e9]), rng.random() < .3) if odd else (1, 0, False)
    if base > 0:
        sc = 1
    n = n if n is not None else rng.randint(1 if long else 0, 5)
    far = rng.randrange(max(n, 1)) if long else -1
    w = {'xinds': [], 'yinds': [], 'travel_times': []}
    for k in extra:
        w[k] = []
    for q in range(n):
        x, y = rng.randrange(L), rng.randrange(W)
        X, Y, T = [x], [y], [base + sc * rng.choice([0, 0.0, 2.5])]
        for _ in range((rng.choice([300, 700, 1300]) if q == far else rng.choice([0, 1, 2, 4, 8, 15])) + minlen - 1):
            if jump:
                x, y = rng.randrange(L), rng.randrange(W)
            else:
                x = min(max(x + rng.choice([-1, 0, 1]), 0), L - 1)
                y = min(max(y + rng.choice([-1, 0, 1]), 0), W - 1)
            X.append(x)
            Y.append(y)
            T.append(T[-1] + (-1 if dec and rng.random() < .4 else 1) * sc * rng.choice([0.0, 1.0, round(rng.uniform(0, 10), 4)]))
        w['xinds'].append(X)
        w['yinds'].append(Y)
        w['travel_times'].append(T)
        for k in extra:
            w[k].append([rng.choice([1.0, 2.0, NAN, 0]) if k != 'tag' else (len(w['xinds']) - 1) * 1000 + e for e in range(len(X))])
    return w


def exposure(w, R):
    out = []
    for X, Y, T in zip(w['xinds'], w['yinds'], w['travel_times']):
        s = 0.0
        for e in range(1, len(T)):
            s += (T[e] - T[e - 1]) * (int(R[X[e - 1], Y[e - 1]] == 1) + int(R[X[e], Y[e]] == 1)) / 2.0
        out.append(s)
    return out
