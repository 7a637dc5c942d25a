from common import *
from hist import *
import dorado.routines as rt


def cases(rng, tier):
    for k in range(400 if tier == 'quick' else 4000):
        ex = rng.choice([(), ('tag',), ('depth', 'tag'), ('roi_flag',)])
        w = rand_hist(rng, 9, 9, n=rng.randint(0, 5) if k % 40 else None, extra=ex, long=k % 40 == 0, odd=k % 3 == 0)
        if rng.random() < .5:
            q = rng.choice([0, 1, 2, 3, 5, 8, 50, -1, -2, -3, -7, -100, 400, -400] if k % 40 else [1, 150, 290, -150, -290])
            yield dict(kind='it', w=w, q=q)
        else:
            ts = [t for T in w['travel_times'] for t in T] or [0.0]
            mids = [(a + b) / 2 for T in w['travel_times'] for a, b in zip(T, T[1:])] or [0.0]
            yield dict(kind='time', w=w, q=rng.choice([0, 1e6, -5.0, rng.choice(ts), rng.choice(mids), rng.uniform(0, 40), min(ts) - 1, -2.5, rng.choice(ts) + rng.choice([-.3, .3])]))


def run(c):
    w = snap(c['w'])
    n = len(w['xinds'])
    ex = [k for k in c['w'] if k not in BASE]
    if c['kind'] == 'it':
        r = rt.get_state(w, c['q'])
    else:
        r = rt.get_time_state(w, c['q'])
    need(same(w, c['w']), "C17 the query changed the walk data")
    need(len(r) == (4 if ex else 3), "C17 %d results" % len(r))
    for g, k in zip(r[:3], BASE):
        need(len(g) == n, "C17 %d values of %s for %d particles" % (len(g), k, n))
    if ex:
        need(set(r[3]) == set(ex), "C17 optional fields %r" % (sorted(r[3]),))
    for i in range(n):
        T = c['w']['travel_times'][i]
        if c['kind'] == 'it':
            q = c['q']
            e = q if -len(T) <= q < len(T) else -1
        else:
            best = min(abs(t - c['q']) for t in T)
            e = min(k for k, t in enumerate(T) if abs(t - c['q']) == best)
        for g, k in zip(r[:3], BASE):
            need(same(g[i], c['w'][k][i][e]), "C17 particle %d %s: %r, expected entry %d = %r" % (i, k, g[i], e, c['w'][k][i][e]))
        for k in ex:
            need(same(r[3][k][i], c['w'][k][i][e]), "C17 particle %d %s: %r, expected entry %d = %r" % (i, k, r[3][k][i], e, c['w'][k][i][e]))
