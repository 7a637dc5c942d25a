from common import *
from fractions import Fraction as Fr


def cases(rng, tier):
    for k in range(500 if tier == 'quick' else 6000):
        n = rng.randint(1, 12)
        Q = [rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-5, 5), 3), rng.gauss(0, 100), 7.0, 1e-3]) for _ in range(n)]
        if not any(Q):
            Q[0] = 2.0
        yield dict(kind='ok', Q=Q, N=rng.choice([0, 1, 2, 3, 5, 7, 10, 100, 1000, 12345, 200000, 10 ** 10]), steps=rng.choice([n, n, n, max(1, n - 1)]), form=rng.choice(['np', 'list', 'int']))
    for k in range(30):
        # shares that differ by very little: the larger ones get the extra particles
        n = rng.randint(2, 12)
        Q = [1 + rng.randrange(0, 9) * 2.0 ** -rng.choice([20, 24]) for _ in range(n)]
        yield dict(kind='ok', Q=Q, N=rng.randint(1, n), steps=n, form='np')
    for k in range(30):
        n = rng.randint(1, 5)
        b = rng.choice(['short', 'zero'])
        yield dict(kind='bad', Q=[0.0] * n if b == 'zero' else [1.0] * n, steps=n if b == 'zero' else n + rng.randint(1, 3), N=5)


def run(c):
    Q = c['Q']
    if c['kind'] == 'bad':
        try:
            pt.flux_proportional_seeding(np.array(Q), c['N'], c['steps'])
        except ValueError:
            return
        raise Bad("C18 invalid discharge series accepted")
    if c.get('form') == 'int':
        Q = [int(round(q)) for q in Q]
        if not any(Q):
            Q[0] = 3
    q = np.array(Q) if c.get('form') != 'list' else list(Q)
    r = pt.flux_proportional_seeding(q, c['N'], c['steps'])
    r = list(np.asarray(r).tolist())
    need(len(r) == len(Q), "C18 %d counts for %d steps" % (len(r), len(Q)))
    need(all(isinstance(x, int) and x >= 0 for x in r), "C18 counts are not non-negative integers: %r" % r)
    need(sum(r) == c['N'], "C18 counts sum to %d, requested %d" % (sum(r), c['N']))
    tot = sum(abs(Fr(x)) for x in Q)
    sh = [abs(Fr(x)) * c['N'] / tot for x in Q]
    for a, b in zip(r, sh):
        need(abs(a - b) < 1, "C18 count %d for a share of %.6f" % (a, float(b)))
    eps = Fr(1, 10 ** 9)
    fr = [b - (b.numerator // b.denominator) for b in sh]
    if any(f > 1 - eps for f in fr):
        return
    ext = [f for a, b, f in zip(r, sh, fr) if a > b.numerator // b.denominator]
    rest = [f for a, b, f in zip(r, sh, fr) if a == b.numerator // b.denominator]
    if ext and rest:
        need(min(ext) >= max(rest) - eps, "C18 an extra particle went to fraction %.6f although %.6f was larger" % (float(min(ext)), float(max(rest))))
