"""C19"""
from fractions import Fraction
from contracts.util import *
from pyvc.loops import Oblig
from pyvc.values import *
from pyvc.terms import band, ieq, toF

CONTRACTS = ['nearest', 'weighted', 'nearest_boundary', 'weighted_boundary', 'nearest_crop', 'weighted_crop', 'unequal']


EPS = Fraction(1, 10 ** 100)      # the code's guard against a zero distance


class Found:
    pass


def points(vc):
    """any number of scattered points with a value each"""
    I = vc.I
    n = vc.int('n', 1)
    X, Y, D = vc.decl('X', 1), vc.decl('Y', 1), vc.decl('D', 1)
    co = I.alloc(vc.st, LVal(n, fn=lambda i: (F(X(Z(i))), F(Y(Z(i))))))
    qu = I.alloc(vc.st, LVal(n, fn=lambda i: F(D(Z(i)))))
    return n, X, Y, D, co, qu


def neighbours(vc, n, X, Y):
    """assumed contracts of the nearest-neighbour searches and of Path.contains_points; each requires to be given exactly the input points"""
    I, g = vc.I, Found()
    q = T.bound_int('q')
    j, i = T.bound_int('j'), T.bound_int('i')
    IND, DIST = vc.decl('IND', 2, z3.IntSort()), vc.decl('DIST', 2)
    T.REG.forall([j, i], z3.And(0 <= IND(j, i), IND(j, i) < n, DIST(j, i) >= 0), triggers=[('IND', [(j, 0, 0), (i, 1, 0)])])
    T.REG.forall([j, i], DIST(j, i) >= 0, triggers=[('DIST', [(j, 0, 0), (i, 1, 0)])])
    INSIDE = vc.decl('INSIDE', 1, z3.BoolSort())
    g.IND, g.DIST, g.INSIDE, g.query, g.k, g.contains = IND, DIST, INSIDE, None, None, None

    def ob(st, name, goal, extra=()):
        I.obligs.append(Oblig('callee-pre', name, list(st.pc) + list(extra), Z(goal)))

    def matrix(st, v, what):
        c = I.content(st, v)
        if not isinstance(c, AVal) or len(c.shape) != 2:
            raise Unsupported(what)
        return c

    def tree(st, v):
        c = matrix(st, v, 'points of the tree')
        ob(st, 'the tree holds all input points', band(ieq(c.shape[0], n), ieq(c.shape[1], 2)))
        for a, f in enumerate((X, Y)):
            x = toF(c.get((q, a)))
            ob(st, 'the tree holds the input points in order', z3.And(Z(bnot(x.nan)), R(x) == f(q)), [0 <= q, q < n])

    def asked(st, v):
        c = matrix(st, v, 'positions asked for')
        ob(st, 'positions have two coordinates', ieq(c.shape[1], 2))
        return c

    def kd(I, st, a, k):
        if len(a) != 1 or k:
            raise Unsupported('cKDTree')
        tree(st, a[0])
        return Opaque('KDTREE')

    def query(I, st, a, k):
        c = asked(st, a[0])
        kk = k['k'] if 'k' in k else a[1] if len(a) > 1 else 1
        if len(a) > 2 or set(k) - {'k', 'workers'}:
            raise Unsupported('query')
        g.query, g.k = c, kk
        if isinstance(kk, int) and kk == 1:
            return (I.alloc(st, AVal((c.shape[0],), 'f', lambda ix: F(DIST(Z(ix[0]), z3.IntVal(0))))),
                    I.alloc(st, AVal((c.shape[0],), 'i', lambda ix: IND(Z(ix[0]), z3.IntVal(0)))))
        sh = (c.shape[0], kk)
        return (I.alloc(st, AVal(sh, 'f', lambda ix: F(DIST(Z(ix[0]), Z(ix[1]))))), I.alloc(st, AVal(sh, 'i', lambda ix: IND(Z(ix[0]), Z(ix[1])))))

    def nearest(I, st, a, k):
        if len(a) != 2 or k:
            raise Unsupported('NearestNDInterpolator')
        tree(st, a[0])
        v = I.content(st, a[1])
        if not isinstance(v, AVal) or len(v.shape) != 1:
            raise Unsupported('values')
        ob(st, 'one value for each input point', ieq(v.shape[0], n))
        g.vals = v
        return Opaque('NEAREST')

    def nearest_call(I, st, a, k):
        if len(a) != 1 or k:
            raise Unsupported('NearestNDInterpolator')
        c = asked(st, a[0])
        g.query, g.k = c, 1
        v = g.vals
        return I.alloc(st, AVal((c.shape[0],), v.kind, lambda ix: v.get((IND(Z(ix[0]), z3.IntVal(0)),))))

    def path(I, st, a, k):
        if len(a) != 1 or k or not (isinstance(a[0], Opaque) and a[0].tag == 'BOUNDARY'):
            raise Unsupported('Path')
        return Opaque('PATH')

    def contains(I, st, a, k):
        if len(a) != 1 or k:
            raise Unsupported('contains_points')
        g.contains = asked(st, a[0])
        return I.alloc(st, AVal((g.contains.shape[0],), 'b', lambda ix: INSIDE(Z(ix[0]))))
    for m in ('scipy.spatial.cKDTree', 'scipy.spatial.KDTree'):
        I.ext[m] = kd
    I.ext['KDTREE.query'] = query
    I.ext['scipy.interpolate.NearestNDInterpolator'] = nearest
    I.ext['NEAREST'] = nearest_call
    I.ext['matplotlib.path.Path'] = path
    I.ext['PATH.contains_points'] = contains
    return g


def gridding(vc, k, boundary, crop=False):
    n, X, Y, D, co, qu = points(vc)
    cs = vc.flt('cellsize', lambda x: x > 0)
    one = isinstance(k, int) and k == 1
    if not one:
        vc.st.assume(k <= n)
    g = neighbours(vc, n, X, Y)
    g.n, g.X, g.Y, g.cs, g.k, g.one, g.boundary, g.crop = n, X, Y, cs.v, k, one, boundary, crop
    g.ext = extent(vc, g)
    kw = {'boundary': Opaque('BOUNDARY'), 'crop': crop} if boundary else {}
    outs = vc.run('particle_track', 'unstruct2grid', [co, qu, cs, k], kw)
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        f, grid = v
        check(vc, s, grid, 'given quantity', D, g)
        # the returned function, on other data
        D2 = vc.decl('D2', 1)
        for nm, data in (('list', vc.I.alloc(s, LVal(n, fn=lambda i: F(D2(Z(i)))))), ('array', vc.I.alloc(s, AVal((n,), 'f', lambda ix: F(D2(Z(ix[0]))))))):
            outs2 = vc.call(f, [data], st=s)
            vc.no_raise(outs2)
            for _, s2, v2 in vc.returns(outs2):
                check(vc, s2, v2, 'other data (%s)' % nm, D2, g)


def extent(vc, g):
    """(x0, y0) and (x1, y1) are the least and the greatest coordinates of the points"""
    q = T.bound_int('q')
    g.x0, g.y0, g.x1, g.y1 = z3.Reals('x0 y0 x1 y1')
    out = []
    for m0, m1, f, nm in ((g.x0, g.x1, g.X, 'x'), (g.y0, g.y1, g.Y, 'y')):
        for m, up in ((m0, False), (m1, True)):
            w = z3.Int('w_%s_%d' % (nm, up))
            gv = vc.given([q], z3.Implies(z3.And(0 <= q, q < g.n), f(q) <= m if up else m <= f(q)))
            out += [gv, 0 <= w, w < g.n, f(w) == m]
    return out


def check(vc, s, ref, what, D, g):
    a = vc.val(s, ref)
    if not isinstance(a, AVal) or len(a.shape) != 2 or g.query is None:
        raise Unsupported('result')
    NR, NC = [Z(d) for d in a.shape]
    r, c = z3.Ints('r$c c$c')
    vc.prove('%s: columns reach the easternmost point' % what, s, z3.ToReal(NC - 1) * g.cs >= g.x1 - g.x0, g.ext)
    vc.prove('%s: rows reach the northernmost point' % what, s, z3.ToReal(NR - 1) * g.cs >= g.y1 - g.y0, g.ext)
    inr = [0 <= r, r < NR, 0 <= c, c < NC]
    cell(vc, s, toF(a.get((r, c))), what, r, c, NR, D, g, g.ext + inr)


def position(vc, s, v, names):
    """the position whose neighbours or side of the boundary the value was made from"""
    apps = {a.arg(0).get_id(): a.arg(0) for a in vc.inner_apps([v.v, v.nan], names)}
    if len(apps) != 1:
        raise Unsupported('cell made from %d positions' % len(apps))
    return list(apps.values())[0]


def at(vc, s, query, j, r, c, NR, what, g, hyps):
    px, py = [toF(query.get((j, t))) for t in (0, 1)]
    vc.prove('%s: columns are a cell size apart from the west' % what, s, z3.And(Z(bnot(px.nan)), R(px) == g.x0 + z3.ToReal(c) * g.cs), hyps)
    vc.prove('%s: rows are a cell size apart, the north first' % what, s, z3.And(Z(bnot(py.nan)), R(py) == g.y0 + z3.ToReal(NR - 1 - r) * g.cs), hyps)


def cell(vc, s, v, what, r, c, NR, D, g, hyps):
    j = position(vc, s, v, {'IND', 'DIST'})
    at(vc, s, g.query, j, r, c, NR, what, g, hyps)
    pos = None
    if not g.one:
        k = g.k
        w = lambda p, q: T.ZR(T.rdiv(Fraction(1), g.DIST(p, q) + T.ZR(EPS)))
        wd = lambda p, q: D(g.IND(p, q)) * w(p, q)
        p, q, u = T.bound_int('p'), vc.q0(), z3.Int('u$s')

        def S(b, m, o=0):
            t = T.ZR(T.mk_sum(u, q, b(p, q + o if o else q), factor=False))
            return z3.substitute(t, (p, j), (u, z3.simplify(m)))
        pos = vc.induct('positive weights have a positive sum', s, lambda m: z3.Implies(m > 0, S(w, m) > 0))(k)
        hyps = hyps + [pos, 2 <= k]
    if g.boundary:
        b = position(vc, s, v, {'INSIDE'})
        at(vc, s, g.contains, b, r, c, NR, what + ' (boundary)', g, hyps)
        vc.prove('%s: NaN exactly outside the boundary' % what, s, Z(v.nan) == z3.Not(g.INSIDE(b)), hyps)
        hyps = hyps + [g.INSIDE(b)]
    if g.one:
        vc.prove('%s: value of the nearest point' % what, s, z3.And(Z(bnot(v.nan)), R(v) == D(g.IND(j, z3.IntVal(0)))), hyps)
        return
    facts = [pos]
    for b in (w, wd):
        facts.append(vc.induct('first summand apart', s, lambda m: S(b, m + 1) == b(j, z3.IntVal(0)) + S(b, m, 1), [S(b, z3.IntVal(0)) == 0])(k - 1))
    num, den = S(wd, k), S(w, k)
    vc.prove('%s: inverse-distance-weighted mean of the k nearest' % what, s, z3.And(Z(bnot(v.nan)), R(v) * den == num), hyps + facts)
    # consequence: between the least and the greatest of the k values (so constant fields are reproduced)
    lo, hi = z3.Reals('lo hi')
    i = T.bound_int('i')
    gv = vc.given([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(lo <= D(g.IND(j, i)), D(g.IND(j, i)) <= hi)))
    f = vc.induct('bounds of a weighted sum', s, lambda m: z3.Implies(m <= k, z3.And(lo * S(w, m) <= S(wd, m), S(wd, m) <= hi * S(w, m))), [gv])(k)
    x = z3.Real('x$mean')
    vc.prove('%s: between the least and the greatest of the k values' % what, s, z3.And(lo <= x, x <= hi), [f, pos, k >= 2, x * den == num])


def weighted(vc):
    gridding(vc, vc.int('k', 2), False)


def nearest(vc):
    gridding(vc, 1, False)


def weighted_boundary(vc):
    gridding(vc, vc.int('k', 2), True)


def nearest_boundary(vc):
    gridding(vc, 1, True)


def unequal(vc):
    n, X, Y, D, co, qu = points(vc)
    m = vc.int('m', 0)
    vc.st.assume(m != n)
    qu = vc.I.alloc(vc.st, LVal(m, fn=lambda i: F(D(Z(i)))))
    neighbours(vc, n, X, Y)
    outs = vc.run('particle_track', 'unstruct2grid', [co, qu, vc.flt('cellsize', lambda x: x > 0)], {})
    for kind, s, v in outs:
        if kind == 'raise':
            vc.flag('a ValueError', v.exc == 'ValueError')
        else:
            vc.prove('rejected', s, False)


def cropping(vc, k):
    """with a boundary, the cropped grid is a window of the uncropped one that contains every cell inside the boundary"""
    n, X, Y, D, co, qu = points(vc)
    cs = vc.flt('cellsize', lambda x: x > 0)
    if not isinstance(k, int):
        vc.st.assume(k <= n)
    g = neighbours(vc, n, X, Y)
    full = vc.run('particle_track', 'unstruct2grid', [co, qu, cs, k], {'boundary': Opaque('BOUNDARY'), 'crop': False})
    q1, b1 = g.query, g.contains
    if len(full) != 1 or full[0][0] != 'return':
        raise Unsupported('uncropped grid')
    s0 = full[0][1]
    A = vc.val(s0, full[0][2][1])
    outs = vc.run('particle_track', 'unstruct2grid', [co, qu, cs, k], {'boundary': Opaque('BOUNDARY')}, st=s0)
    vc.no_raise(outs)
    t = z3.Int('t$q')
    for _, s, v in vc.returns(outs):
        for m in (0, 1):
            for x, y in ((q1, g.query), (b1, g.contains)):
                vc.prove('both ask for the same positions', s, z3.And(Z(ieq(x.shape[0], y.shape[0])), Z(T.fident(toF(x.get((t, m))), toF(y.get((t, m)))))), [0 <= t, t < Z(x.shape[0])])
        f, grid = v
        window(vc, s, A, grid, 'given quantity', g)
        full2 = vc.call(full[0][2][0], [qu], st=s)
        for _, s1, v1 in vc.returns(full2):
            for _, s2, v2 in vc.returns(vc.call(f, [qu], st=s1)):
                window(vc, s2, vc.val(s1, v1), v2, 'returned function', g)


def window(vc, s, A, ref, what, g):
    NR, NC = [Z(d) for d in A.shape]
    r, c = z3.Ints('r$f c$f')
    inr = [0 <= r, r < NR, 0 <= c, c < NC]
    full = lambda r, c: toF(A.get((r, c)))
    inside = Z(bnot(full(r, c).nan))
    hint = [z3.Implies(mask(r, c), rank(r, c) >= 0) for rank, mask, N in T.REG.keyed.get('nonzero', [])]
    for st, a in vc.alts(s, ref):
        if not isinstance(a, AVal) or len(a.shape) != 2:
            raise Unsupported('result')
        hr, wc = [Z(d) for d in a.shape]
        if z3.is_int_value(hr) and hr.as_long() == 0:
            vc.prove('%s: nothing is left only if every cell is NaN' % what, st, z3.Not(inside), inr + hint)
            continue
        # the window's upper left corner, read off the position its first cell is made from
        j = position(vc, st, toF(a.get((z3.IntVal(0), z3.IntVal(0)))), {'INSIDE'})
        if not (z3.is_app(j) and j.decl().name() == 'flatidx'):
            raise Unsupported('positions in another order')
        dr, dc = z3.simplify(NR - 1 - j.arg(0)), z3.simplify(j.arg(1))
        vc.prove('%s: cells inside the boundary are kept' % what, st, z3.And(dr <= r, r < dr + hr, dc <= c, c < dc + wc), inr + hint + [inside])
        vc.prove('%s: the window lies in the grid' % what, st, z3.And(0 <= dr, dr + hr <= NR, 0 <= dc, dc + wc <= NC), hint)
        win = [0 <= r, r < hr, 0 <= c, c < wc]
        vc.prove('%s: cells are those of the uncropped grid' % what, st, Z(T.fident(toF(a.get((r, c))), full(dr + r, dc + c))), win)


def nearest_crop(vc):
    cropping(vc, 1)


def weighted_crop(vc):
    cropping(vc, vc.int('k', 2))
