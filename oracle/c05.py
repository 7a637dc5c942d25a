from common import *


def rand_w(rng):
    s = rng.random()
    w = [rng.choice([0.0, 0.0, NAN, rng.random(), rng.random() * 10, 1.0]) for _ in range(9)]
    if s < .1:
        w = [0.0] * 9
    elif s < .2:
        k = rng.randrange(9)
        w = [0.0] * 9
        w[k] = rng.choice([1e-9, 1.0, 1e6])
    elif s < .25:
        w = [NAN] * 9
    elif s < .4:
        w = [rng.random() for _ in range(9)]
    if rng.random() < .5:
        w[4] = 0.0
    return w


class Obj:
    pass


def cases(rng, tier):
    n = 60 if tier == 'quick' else 600
    for k in range(n):
        yield dict(kind='get', w=rand_w(rng))
        if k % 3 == 0:
            yield dict(kind='pick', w=rand_w(rng))
        if k % 3 == 1:
            yield dict(kind='seed', ch=[rng.randrange(rng.choice([3, 100])) for _ in range(rng.randint(1, 12))])
        yield dict(kind='zero', w=rand_w(rng), f=rng.choice([0.0, 0.0, 1 - 1e-15, rng.random()]))
    for k in range(n // 3):
        m = rand_model(rng, steep=False)
        yield dict(kind='walk', m=m, i=rng.randrange(1, shape_of(m)[0] - 1) if shape_of(m)[0] > 2 else 1, j=rng.randrange(1, shape_of(m)[1] - 1), seed=rng.randrange(10 ** 6))


def row_obj(w, steep):
    P = Obj()
    P.weight = np.zeros((3, 4, 9))
    P.weight[1, 2, :] = w
    P.steepest_descent = steep
    return P


def clean(w):
    return [0.0 if (x != x) else x for x in w]


def check_shares(pick, w, what):
    w = clean(w)
    tot = sum(w)
    sh, tol = shares(pick, 9)
    for k, v in sh.items():
        need(0 <= k < 9, "%s picked %r" % (what, k))
        if tot > 0:
            need(w[k] > 0, "%s chose direction %r of zero weight (weights %r)" % (what, k, w))
        else:
            need(k == 4, "%s moved to %r though no direction has positive weight" % (what, k))
    if tot > 0:
        for k in range(9):
            need(abs(sh.get(k, 0.0) - w[k] / tot) <= tol, "%s: direction %d has share %.4f of the draws, weight share is %.4f (weights %r)"
                 % (what, k, sh.get(k, 0.0), w[k] / tot, w))


def run(c):
    k = c['kind']
    if k == 'get':
        P = row_obj(c['w'], False)
        check_shares(lambda: int(lw.get_weight(P, (1, 2))), c['w'], 'C05 get_weight')
    elif k == 'pick' and hasattr(lw, 'random_pick'):
        a = np.array(c['w'], dtype=float)
        check_shares(lambda: int(lw.random_pick(a.copy())), c['w'], 'C05 random_pick')
    elif k == 'seed':
        ch = c['ch']
        idx = list(range(len(ch)))
        sh, tol = shares(lambda: int(lw.random_pick_seed(idx)), len(ch))
        for v, s in sh.items():
            need(v in idx, "C05 random_pick_seed returned %r, not in the list" % v)
        for v in idx:
            need(abs(sh.get(v, 0.0) - 1.0 / len(ch)) <= tol, "C05 random_pick_seed: entry %d of %d has share %.4f" % (v, len(ch), sh.get(v, 0.0)))
        # the entries themselves, repeated ones as often as they are listed
        sh, tol = shares(lambda: int(lw.random_pick_seed(list(ch))), 1 + max(ch))
        for v in set(sh) | set(ch):
            need(abs(sh.get(v, 0.0) - ch.count(v) / len(ch)) <= tol + 2e-3, "C05 random_pick_seed: location %d, listed %d times of %d, has share %.4f" % (v, ch.count(v), len(ch), sh.get(v, 0.0)))
        need(lw.random_pick_seed(ch) in ch, "C05 random_pick_seed returned something outside the list")
    elif k == 'zero':
        P = row_obj(c['w'], False)
        w = clean(c['w'])
        with Draws([c['f']]):
            r = int(lw.get_weight(P, (1, 2)))
        need(0 <= r < 9, "C05 picked direction %r" % r)
        need(w[r] > 0 if sum(w) > 0 else r == 4, "C05 draw fraction %r chose direction %r with weights %r" % (c['f'], r, w))
    elif k == 'walk':
        P = build(c['m'])
        i, j = c['i'], c['j']
        np.random.seed(c['seed'])
        w = clean(P.weight[i, j, :].tolist())
        N = 400
        P.generate_particles(N, [i], [j], method='exact')
        out = P.run_iteration()
        cnt = [0] * 9
        for p in range(N):
            a, b = out['xinds'][p][-1] - i, out['yinds'][p][-1] - j
            need((a, b) in D8, "C05 particle jumped by %r" % ((a, b),))
            cnt[D8.index((a, b))] += 1
        tot = sum(w)
        if near_edge(np.array(P.cell_type), i, j) or tot <= 0:
            need(cnt[4] == N, "C05 particle moved without admissible direction")
            return
        for q in range(9):
            s = w[q] / tot
            need(not (cnt[q] and s == 0), "C05 direction %d of zero weight was taken" % q)
            need(abs(cnt[q] / N - s) <= 6.5 * math.sqrt(max(s * (1 - s), 1e-4) / N) + 2.0 / N, "C05 direction %d taken with frequency %.3f, weight share %.3f" % (q, cnt[q] / N, s))
