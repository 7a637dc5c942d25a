"""Shared pieces of the run-time contract checks (CPython, the real dorado package from /repo).

A *case* is a JSON-able dict; every oracle module has
    cases(rng, tier)  -> iterator of cases (deterministic in rng)
    run(case)         -> None, or a string naming the broken contract clause
"""
import os, sys, math, json, random, warnings, copy
import contextlib, io
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('DORADO_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np
import logging
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
warnings.simplefilter('ignore')

import dorado                                    # noqa: E402
import dorado.particle_track as pt               # noqa: E402
import dorado.lagrangian_walker as lw            # noqa: E402

NAN = float('nan')


class Bad(Exception):
    """A contract clause is broken."""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def quiet(f, *a, **k):
    """Call, swallowing the progress bar output."""
    with contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def same(a, b):
    """Structural equality with NaN equal to NaN."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype.kind == b.dtype.kind == 'f':
            a, b = a.astype(float), b.astype(float)
        return a.shape == b.shape and bool(np.all((a == b) | (isnan(a) & isnan(b))))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = [x.item() if isinstance(x, np.generic) else x for x in (a, b)]
    try:
        if a != a and b != b:
            return True
        return bool(a == b)
    except Exception:
        return False


def isnan(a):
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        return np.isnan(a)
    return np.zeros(a.shape, bool)


def close(a, b, rel=1e-7, ab=1e-9):
    a, b = float(a), float(b)            # not in the precision of a single-precision operand
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def isint(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))


# ------------------------------------------------------------------ fields
def grid(rng, L, W, f):
    return [[f() for _ in range(W)] for _ in range(L)]


def rand_depth(rng, L, W, style=None):
    style = style or rng.choice(['wet', 'mixed', 'mixed', 'levels', 'dry', 'nan'])

    def cell():
        u = rng.random()
        if style == 'wet':
            return round(rng.uniform(0.2, 5), 6)
        if style == 'levels':
            return rng.choice([0.0, 0.05, 0.1, 0.5, 1.0, 1.0, 2.0])
        if style == 'dry':
            return 0.0 if u < .7 else round(rng.uniform(0, 0.3), 6)
        if style == 'nan' and u < .15:
            return NAN
        if u < .25:
            return 0.0
        if u < .35:
            return round(rng.uniform(0, .1), 6)
        return round(rng.uniform(.1, 4), 6)
    return grid(rng, L, W, cell)


def rand_flow(rng, L, W, style=None):
    style = style or rng.choice(['uni', 'rand', 'sparse', 'zero', 'rand'])
    cx, cy = rng.uniform(-2, 2), rng.uniform(-2, 2)

    def mk(c):
        def cell():
            if style == 'uni':
                return c
            if style == 'zero':
                return 0.0
            if style == 'sparse' and rng.random() < .6:
                return 0.0
            return round(rng.gauss(0, 1.5), 6)
        return cell
    return grid(rng, L, W, mk(cx)), grid(rng, L, W, mk(cy)), style


def rand_model(rng, big=False, edge=True, steep=None, diff=None, pv=None, roi=None, wet=None):
    """A complete, accepted set of model parameters (JSON)."""
    L, W = (rng.randint(3, 9), rng.randint(3, 9)) if not big else (rng.randint(6, 12), rng.randint(6, 12))
    d = rand_depth(rng, L, W, wet)
    topo = grid(rng, L, W, lambda: rng.choice([0.0, 0.0, round(rng.uniform(-3, 1), 4)]))
    if rng.random() < .5:
        sl = [rng.uniform(-.5, .5), rng.uniform(-.5, .5)]
        stage = [[round(10 + sl[0] * i + sl[1] * j + rng.choice([0, 0, rng.uniform(-.2, .2)]), 6)
                  for j in range(W)] for i in range(L)]
    else:
        stage = [[(0.0 if d[i][j] != d[i][j] else d[i][j]) + topo[i][j] for j in range(W)] for i in range(L)]
    qx, qy, _ = rand_flow(rng, L, W)
    m = dict(dx=rng.choice([1.0, 1, 5.0, 50, 0.3]), depth=d, stage=stage, qx=qx, qy=qy, model=rng.choice(['DeltaRCM', None]),
             theta=rng.choice([0, 0.0, .5, 1.0, 1, 2.0, 1.7, -.7]), gamma=rng.choice([0, 0.0, .05, .5, 1.0, 1, .3]),
             dry_depth=rng.choice([0.1, 0.0, .02, .5, .1]), diff_coeff=diff if diff is not None else rng.choice([0, 0.0, .2, 1.0, 1.99, 2.0]),
             verbose=False)
    if steep or (steep is None and rng.random() < .35):
        m['steepest_descent'] = True
    if rng.random() < .6:
        ct = grid(rng, L, W, lambda: rng.choice([0, 0, 0, 1, 2]))
        e = rng.choice(['border', 'none', 'rand', 'side']) if edge else 'none'
        for i in range(L):
            for j in range(W):
                if e == 'border' and (i in (0, L - 1) or j in (0, W - 1)):
                    ct[i][j] = -1
                if e == 'side' and j == W - 1:
                    ct[i][j] = -1
                if e == 'rand' and rng.random() < .08:
                    ct[i][j] = -1
        m['cell_type'] = ct
    elif not edge:
        m['cell_type'] = grid(rng, L, W, lambda: 0)
    if pv is None and rng.random() < .3:
        pv = rng.sample(['depth', 'stage', 'qx', 'qy', 'u', 'v'], rng.randint(1, 3))
    if pv:
        m['particle_variables'] = list(pv)
    if roi is None:
        roi = rng.random() < .3
    if roi:
        m['roi_grid'] = grid(rng, L, W, lambda: rng.choice([0, 1]))
    return m


ARR = {'depth', 'stage', 'topography', 'qx', 'qy', 'u', 'v', 'roi_grid', 'cell_type'}


def params(m):
    p = pt.modelParams()
    for k, v in m.items():
        if k == 'model' and v is None:
            continue
        if k in ('cell_type',):
            v = np.array(v, dtype=int)
        elif k == 'roi_grid':
            v = np.array(v)
        elif k in ARR and v is not None:
            v = np.array(v, dtype=float)
        elif k == 'particle_variables':
            v = list(v)
        setattr(p, k, v)
    return p


def build(m):
    return pt.Particles(params(m))


def shape_of(m):
    a = m.get('depth') or m.get('stage')
    return len(a), len(a[0])


def near_edge(ct, i, j):
    L, W = ct.shape
    return bool(np.any(ct[max(0, i - 1):min(L, i + 2), max(0, j - 1):min(W, j + 2)] == -1))


BASE = ('xinds', 'yinds', 'travel_times')
D8 = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]


def snap(w):
    return copy.deepcopy(w)


def check_aligned(w, names=None, msg=''):
    n = len(w['xinds'])
    for k in w:
        need(len(w[k]) == n, "%s: %d histories of %r for %d particles" % (msg, len(w[k]), k, n))
        for i in range(n):
            need(len(w[k][i]) == len(w['xinds'][i]),
                 "%s: particle %d has %d entries of %r but %d rows" % (msg, i, len(w[k][i]), k, len(w['xinds'][i])))
    if names is not None:
        for k in names:
            need(k in w, "%s: %r not recorded" % (msg, k))


class Draws:
    """Serves chosen fractions of the drawing range to every uniform draw made through numpy's global stream."""

    def __init__(self, fracs):
        self.fracs = list(fracs)
        self.n = 0

    def _next(self):
        f = self.fracs[self.n % len(self.fracs)]
        self.n += 1
        return f

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return np.array([low + (high - low) * self._next() for _ in range(int(np.prod(size)))]).reshape(size)
        return low + (high - low) * self._next()

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def __enter__(self):
        self.old = []
        for mod, name, f in [(np.random, 'uniform', self.uniform), (np.random, 'random', self.random),
                             (np.random, 'rand', lambda *a: self.random(a if a else None)),
                             (np.random, 'random_sample', self.random), (lw, 'random', self.random),
                             (random, 'random', self._next), (random, 'uniform', self.uniform)]:
            if hasattr(mod, name):
                self.old.append((mod, name, getattr(mod, name)))
                setattr(mod, name, f)
        return self

    def __exit__(self, *a):
        for mod, name, f in self.old:
            setattr(mod, name, f)
        return False


def shares(pick, n_dirs, M=997):
    """Fraction of the drawing range that selects each outcome of pick().

    First through controlled draws (exact to about 1/M when one draw decides); when the code does not make
    exactly one uniform draw per pick, by sampling with a fixed seed. Returns (list, tolerance)."""
    fr = [(i + .5) / M for i in range(M)]
    d = Draws(fr)
    cnt = {}
    ok = True
    with d:
        for i in range(M):
            d.n = i
            before = d.n
            r = pick()
            if d.n - before not in (0, 1):
                ok = False
                break
            if d.n == before and i == 0:
                ok = None
            cnt[r] = cnt.get(r, 0) + 1
    if ok:
        return {k: v / M for k, v in cnt.items()}, 3.0 / M
    N = 20000
    np.random.seed(12345)
    random.seed(12345)
    cnt = {}
    for i in range(N):
        r = pick()
        cnt[r] = cnt.get(r, 0) + 1
    return {k: v / N for k, v in cnt.items()}, 6 * .5 / math.sqrt(N)
