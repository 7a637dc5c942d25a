from common import *
from hist import *


def cases(rng, tier):
    for k in range(300 if tier == 'quick' else 4000):
        L, W = rng.randint(1, 6), rng.randint(1, 6)
        p = rng.choice([.5, .5, 0, 1, .2])
        yield dict(kind='exp', w=rand_hist(rng, L, W, jump=rng.random() < .3, extra=rng.choice([(), ('depth',)]), long=k % 40 == 7, odd=k % 3 == 0), R=grid(rng, L, W, lambda: 1 if rng.random() < p else 0),
                   dt=rng.choice(['int64', 'float64', 'uint8', 'int32', 'bool']))


def run(c):
    R = np.array(c['R'], dtype=c['dt']).reshape(len(c['R']), -1)
    w = snap(c['w'])
    R0 = R.copy()
    out = quiet(pt.exposure_time, w, R)
    need(same(w, c['w']), "C14 the walk data was modified")
    need(same(R, R0), "C14 the region was modified")
    e = exposure(c['w'], R0)
    need(len(out) == len(e), "C14 %d exposure times for %d particles" % (len(out), len(e)))
    for i in range(len(e)):
        need(abs(out[i] - e[i]) <= 1e-11 * max(abs(t) for t in c['w']['travel_times'][i]), "C14 particle %d: %r, expected %r" % (i, out[i], e[i]))
