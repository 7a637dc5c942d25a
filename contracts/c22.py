"""C22"""
from contracts.util import *
from pyvc.values import *
from pyvc import libnp
from pyvc.loops import Oblig
from pyvc.terms import Unsupported

CONTRACTS = ['mad', 'percentile', 'thresholds']


def mad(vc):
    L, W = vc.int('L', 1), vc.int('W', 1)
    win = vc.int('win', 1)
    th = F(vc.real('th', lambda x: x >= 1))
    A, v, nan = vc.arr('data', (L, W), 'f', nan=True)
    outs = vc.run('spatial', 'median_absolute_deviation_filter', [A, win, th])
    vc.no_raise(outs)
    h = win / 2
    i, j, a, b = (T.bound_int(x) for x in 'ijab')
    lo, hi = z3.Real('lo'), z3.Real('hi')
    num = [0 <= i, i < L, 0 <= j, j < W, z3.Not(nan(i, j))]
    for _, s, r in vc.returns(outs):
        c = vc.val(s, r)
        vc.prove('shape', s, z3.And(Z(c.shape[0]) == L, Z(c.shape[1]) == W))
        e = c.get((i, j))
        vc.prove('NaN stays NaN', s, isnan(e), num[:4] + [nan(i, j)])
        d = vc.val(s, A)
        vc.prove('data unchanged', s, entry_same(d.get((i, j)), v(i, j), nan(i, j)), num[:4])
        # the cell itself is one of the values of its window, at its row-major position where the window was flattened
        x = [e.v, e.nan, e.inf]
        ws = {t.arg(1).get_id(): t.arg(1) for t in vc.inner_apps(x, ('flatrow', 'flatcol'))}
        top, left = z3.If(i - h < 0, 0, i - h), z3.If(j - h < 0, 0, j - h)
        own = [libnp._flat(i - top, j - left, w) for w in ws.values()]
        # [lo, hi]: any interval that holds the non-NaN values of the window
        ok = z3.Implies(z3.And(0 <= a, a < L, 0 <= b, b < W, i - h <= a, a <= i + h, j - h <= b, b <= j + h, z3.Not(nan(a, b))),
                        z3.And(lo <= v(a, b), v(a, b) <= hi))
        vc.cases(s, e, [('other cells get a number', finite, []),
                        ('within the values of the window', lambda y: z3.And(R(y) >= lo, R(y) <= hi), [vc.given([a, b], ok)])], num, own)


def entry_same(x, v, nan):
    return z3.And(Z(x.nan) == nan, z3.Or(nan, R(x) == v))


def percentile(vc):
    n = vc.int('n', 1)
    C, c, _ = vc.arr('cdf', (n,))
    X, x, _ = vc.arr('x', (n,))
    p = vc.flt('p')
    outs = vc.run('spatial', 'percentile_from_cdf', [C, X, p])
    vc.no_raise(outs)
    j = T.bound_int('j')
    below = F(c(j)), p
    for _, s, r in vc.returns(outs):
        w = z3.Int('w')
        # on a non-decreasing cdf: the first grid point whose cumulative value reaches p
        first = z3.And(0 <= w, w < n, c(w) >= p.v, z3.Or(w == 0, c(w - 1) < p.v))
        up = vc.monotone(c, n)
        vc.prove('first grid point that reaches the level', s, z3.And(finite(r), R(r) == x(w)), [first, up])
        vc.prove('NaN if no grid point reaches the level', s, isnan(r), [c(n - 1) < p.v, up])


def thresholds(vc):
    L, W = vc.int('L', 1), vc.int('W', 1)
    res = vc.int('res', 1)
    I = vc.I
    ny, nx = libnp._idiv(L, res), libnp._idiv(W, res)
    isl, ln = vc.decl('isl', 1, z3.BoolSort()), vc.decl('len', 1, z3.IntSort())
    ex, en = vc.decl('exp', 2), vc.decl('expnan', 2, z3.BoolSort())
    k = T.bound_int('k')
    T.REG.forall([k], ln(k) >= 0)
    td = vc.flt('td', lambda x: x > 0)
    elem = lambda i: Choice([(isl(Z(i)), LVal(ln(Z(i)), fn=lambda j: F(ex(Z(i), Z(j)), en(Z(i), Z(j)), False))), (z3.Not(isl(Z(i))), libnp.NAN)])
    data = I.alloc(vc.st, LVal(ny * nx, fn=elem))
    EL, _, _ = vc.arr('elev', (L, W))
    dens = vc.decl('DENS', 2)
    q = T.bound_int('q')
    T.REG.forall([k, q], dens(k, q) > 0)

    calls = []
    q1, q2 = T.bound_int('q'), T.bound_int('q')

    def kept(k):
        """the non-zero, non-NaN exposures of chunk k: their number, value by rank, number of distinct values"""
        cnt, sel = T.mk_filter(ln(k), q, z3.And(ex(k, q) != 0, z3.Not(en(k, q))))
        val = lambda p: ex(k, sel(p))
        return cnt, val, T.mk_count(cnt, q1, T.mk_count(q1, q2, val(q2) == val(q1)) < 1)

    def kde(I, st, a, kw):
        i, _ = I.fresh(st, 'kde', z3.IntSort())
        tag = 'kde#%d' % len(calls)
        calls.append(None)
        no = len(calls) - 1
        if len(st.loops) != 1:
            raise Unsupported('density estimate outside the loop over the chunks')
        ck = st.loops[0]
        data = I.content(st, a[0])
        cnt, val, dist = kept(ck)
        if not isinstance(data, LVal):
            raise Unsupported('density estimate of something that is not a list')
        rng = list(st.pc) + [0 <= q, q < Z(cnt)]
        I.obligs.append(Oblig('callee-pre', 'gaussian_kde: the non-zero exposures of the chunk, number', list(st.pc), Z(data.len) == Z(cnt)))
        I.obligs.append(Oblig('callee-pre', 'gaussian_kde: the non-zero exposures of the chunk, values', rng, z3.And(finite(data.at(q)), R(data.at(q)) == val(q))))
        I.obligs.append(Oblig('callee-pre', 'gaussian_kde: at least two different values', list(st.pc), dist >= 2))

        def call(I, st, a, kw):
            g = I.content(st, a[0])
            rng = list(st.pc) + [0 <= q, q < Z(cnt)]
            n = Z(g.shape[0])
            I.obligs.append(Oblig('callee-pre', 'density evaluated on a grid from the least to the greatest value', rng, z3.And(n >= 2, R(g.get((0,))) <= val(q), val(q) <= R(g.get((n - 1,))))))
            calls[no] = (ck, i, g)
            return I.alloc(st, AVal(g.shape, 'f', lambda idx: F(dens(i, Z(idx[0])))))
        I.ext[tag] = call
        return Opaque(tag)
    I.ext['scipy.stats.gaussian_kde'] = kde
    smoothed = []

    def mad(I, st, fr):
        smoothed.append((I.content(st, fr['data']), fr['window_size'], fr['threshold']))
        return Opaque('smoothed%d' % len(smoothed))
    I.contracts['spatial.median_absolute_deviation_filter'] = mad
    outs = vc.run('spatial', 'compute_thresholds', [data, EL, td, res])
    vc.no_raise(outs)
    r, c = T.bound_int('r'), T.bound_int('c')
    kk = r * nx + c
    ins = [0 <= r, r < ny, 0 <= c, c < nx, libnp._flat(r, c, nx) == kk]       # flatidx: row-major position
    dist = T.subst(kept(k)[2], [(k, kk)])
    for _, s, v in vc.returns(outs):
        E = vc.val(s, v)
        if not (isinstance(E, tuple) and len(smoothed) == 3 and all(isinstance(x, Opaque) and x.tag == 'smoothed%d' % (n + 1) for n, x in enumerate(E))):
            raise Unsupported('result is not the three smoothed maps in order')
        maps = [m[0] for m in smoothed]
        for m in maps:
            vc.prove('shape of the chunk layout', s, z3.And(Z(m.shape[0]) == ny, Z(m.shape[1]) == nx))
        for m in smoothed:
            vc.prove('smoothing threshold of at least 1', s, R(toF(m[2])) >= 1)
        e = [m.get((r, c)) for m in maps]
        for p, x in zip((50, 75, 90), e):
            vc.prove('E%d is NaN without a list of exposures' % p, s, isnan(x), ins + [z3.Not(isl(kk))])
            vc.prove('E%d is NaN with fewer than five distinct non-zero exposures' % p, s, isnan(x), ins + [isl(kk), dist < 5])
        full = ins + [isl(kk), dist >= 5]
        for p, x in zip((50, 75, 90), e):
            vc.prove('E%d is a number otherwise' % p, s, finite(x), full)
        ordered(vc, s, [vc.resolve(s, full, x) for x in e], full)


def ordered(vc, s, e, hyps):
    """E50 <= E75 <= E90, over the order of the grid positions the three levels are reached at where the values have that form"""
    ws = [positions(x.v) for x in e]
    lem = []
    if all(len(w) == 1 for w in ws):
        for n, (a, b) in enumerate(zip(ws, ws[1:])):
            lem.append(a[0] <= b[0])
            o = vc.prove('lemma: the grid position of a higher level is not lower (%d)' % n, s, lem[-1], hyps)
            if o.status != 'ok':
                vc.obs.remove(o)
                lem = []
                break
    for n, (x, y) in enumerate(zip(e, e[1:])):
        vc.prove('E50 <= E75' if n == 0 else 'E75 <= E90', s, R(x) <= R(y), hyps + lem[n:n + 1])


def positions(x):
    """integer terms that enter the real term x"""
    got, todo = {}, [z3.simplify(T.ZR(x))]
    while todo:
        a = todo.pop()
        if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
            got[a.arg(0).get_id()] = a.arg(0)
        elif not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            todo += a.children()
    return list(got.values())
