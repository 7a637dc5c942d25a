from common import *
from hist import *
import dorado.spatial as sp


def cases(rng, tier):
    for k in range(150 if tier == 'quick' else 2000):
        L, W = rng.randint(2, 11), rng.randint(2, 11)
        p = rng.choice([.5, .15, .9])
        yield dict(kind=rng.choice(['systemwide', 'localized']), L=L, W=W, f=rng.choice([1, 2, 3, 4]), ct=grid(rng, L, W, lambda: 1 if rng.random() < p else rng.choice([0, 2, -1])),
                   w=rand_hist(rng, L, W, n=rng.randint(0, 12), extra=rng.choice([(), ('tag',)]), minlen=rng.choice([1, 3])))
    for k in range(60 if tier == 'quick' else 600):
        L, W = 8, 8
        yield dict(kind='find', w=rand_hist(rng, L, W, n=rng.randint(0, 8), extra=('tag',)), r=sorted(rng.sample(range(9), 2)), c=sorted(rng.sample(range(9), 2)))


KNOWN = "particles starting on the first row or column after a chunk are also counted in that chunk (_find_common_indices_info upper bound is inclusive)"


def pick(w, keep):
    return {k: [w[k][i] for i in keep] for k in w}


def run(c):
    w = snap(c['w'])
    if c['kind'] == 'find':
        if not hasattr(sp, '_find_common_indices_info'):
            return
        out = sp._find_common_indices_info(w, tuple(c['r']), tuple(c['c']))
        n = len(c['w']['xinds'])
        s = [i for i in range(n) if c['r'][0] <= c['w']['xinds'][i][0] < c['r'][1] and c['c'][0] <= c['w']['yinds'][i][0] < c['c'][1]]
        if same(dict(out), pick(c['w'], s)):
            return
        l = [i for i in range(n) if c['r'][0] <= c['w']['xinds'][i][0] <= c['r'][1] and c['c'][0] <= c['w']['yinds'][i][0] <= c['c'][1]]
        if same(dict(out), pick(c['w'], l)):
            return 'KNOWN:upper-bound'
        raise Bad("C21 selection for rows %r columns %r: %r" % (c['r'], c['c'], out))
    L, W, f = c['L'], c['W'], c['f']
    ct = np.array(c['ct'])
    el = np.zeros((L, W))
    out = quiet(getattr(sp, c['kind']), w, el, ct, f)
    need(same(w, c['w']), "C21 the walk data was modified")
    reg = (np.array(c['ct']) == 1).astype(int)
    ny, nx = L // f, W // f
    need(len(out) == ny * nx, "C21 %d entries for %dx%d chunks" % (len(out), ny, nx))
    known = False
    for r in range(ny):
        for q in range(nx):
            r0, r1 = r * f, L if r == ny - 1 else (r + 1) * f
            c0, c1 = q * f, W if q == nx - 1 else (q + 1) * f
            e = out[r * nx + q]
            if not reg[r0:r1, c0:c1].any():
                need(not isinstance(e, (list, tuple)) and e != e, "C21 chunk (%d,%d) without region cell gives %r" % (r, q, e))
                continue
            R = reg
            if c['kind'] == 'localized':
                R = np.zeros_like(reg)
                R[r0:r1, c0:c1] = reg[r0:r1, c0:c1]
            X = [(a[0], b[0]) for a, b in zip(c['w']['xinds'], c['w']['yinds'])]
            strict = [i for i, (a, b) in enumerate(X) if r0 <= a < r1 and c0 <= b < c1]
            loose = [i for i, (a, b) in enumerate(X) if r0 <= a <= r1 and c0 <= b <= c1]
            need(isinstance(e, (list, tuple, np.ndarray)), "C21 chunk (%d,%d) with region cells gives %r" % (r, q, e))

            def eq(keep):
                x = exposure(pick(c['w'], keep), R)
                return len(x) == len(e) and all(close(a, b) for a, b in zip(x, e))
            if eq(strict):
                continue
            if strict != loose and eq(loose):
                known = True
                continue
            raise Bad("C21 chunk (%d,%d) gives %r, expected %r (particles %r)" % (r, q, list(e), exposure(pick(c['w'], strict), R), strict))
    if known:
        return 'KNOWN:upper-bound'
