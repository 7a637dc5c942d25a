"""Shared by C01, C08, C11, C12: Particles.generate_particles and gen_input_check."""
from contracts.stepper import *


def seeds(vc, M, arrays=False, apart=False):
    """two lists of m >= 1 cells of the grid (apart: lists of different lengths)"""
    m = vc.int('m', 1)
    my = vc.int('my', 1) if apart else m
    sx, sy = vc.decl('sx', 1, z3.IntSort()), vc.decl('sy', 1, z3.IntSort())
    k = z3.Int('k$q')
    T.REG.forall([k], z3.And(0 <= sx(k), sx(k) < M['L'], 0 <= sy(k), sy(k) < M['W']))
    mk = (lambda d, m: AVal((m,), 'i', lambda ix: d(Z(ix[0])))) if arrays else (lambda d, m: LVal(m, fn=lambda i: d(Z(i))))
    return m, my, sx, sy, vc.I.alloc(vc.st, mk(sx, m)), vc.I.alloc(vc.st, mk(sy, my))


def start(vc, own, prev, tracked, roi, arrays=False, lack=(), apart=False, lackown=()):
    M = world(vc, tracked, roi)
    m, my, sx, sy, X, Y = seeds(vc, M, arrays, apart)
    S = dict(M=M, m=m, my=my, sx=sx, sy=sy, X=X, Y=Y, N=vc.int('N', 0), t0=vc.flt('t0'), own=None, prev=None)
    vc.val(vc.st, M['P']).attrs['Np_tracer'] = 0
    if own:
        S['own'] = with_walk(vc, M, lack=lackown)
    if prev:
        S['prev'] = hist(vc, extra=[x for x in M['names'] if x not in lack], pre='p')
    return S


def generate(vc, S, method, **over):
    a = dict(N=S['N'], X=S['X'], Y=S['Y'], t0=S['t0'], method=method)
    a.update(over)
    return vc.run('particle_track', 'Particles.generate_particles',
                  [S['M']['P'], a['N'], a['X'], a['Y'], a['t0'], a['method'], S['prev']['w'] if S['prev'] else None])


def funs(H):
    d = dict(xinds=H['X'], yinds=H['Y'], travel_times=H['T'])
    d.update(H['E'])
    return d


def prove_generate(vc, which, method, own=False, prev=False, tracked=('depth', 'stage'), roi=True, arrays=False, lack=(), lackown=()):
    S = start(vc, own, prev, tracked, roi, arrays, lack, apart=method == 'random', lackown=lackown)
    M, N, m = S['M'], S['N'], S['m']
    outs = generate(vc, S, method)
    vc.no_raise(outs)
    names = ['xinds', 'yinds', 'travel_times'] + M['names']
    i, j = z3.Ints('i j')
    pn = S['prev']['n'] if prev else z3.IntVal(0)
    on = S['own']['n'] if own else z3.IntVal(0)
    for _, s, v in vc.returns(outs):
        P = vc.val(s, M['P'])
        w = vc.val(s, P.attrs['walk_data'])
        ok = isinstance(w, DVal) and set(w.d) == set(names)
        vc.flag('exactly the tracked variables are recorded', ok, str(w))
        if not ok:
            return
        new = [0 <= i, i < N]
        g = pn + on + i                       # the i-th new particle
        vc.cover('a new particle', s, new)
        l = {k: vc.val(s, w.d[k]) for k in names}
        e = {k: vc.val(s, l[k].at(g)) for k in names}
        r, c = Z(e['xinds'].at(0)), Z(e['yinds'].at(0))
        for k in names:
            vc.prove('%s: one history per requested particle after the present ones' % k, s, Z(l[k].len) == pn + on + N)
            vc.prove('%s: a new history has one entry' % k, s, Z(e[k].len) == 1, new)
        if 'count' in which:
            vc.prove('the object counts its particles', s, Z(P.attrs['Np_tracer']) == pn + on + N)
        if 'time' in which:
            vc.prove('a new particle has the seed time', s, eqF(e['travel_times'].at(0), S['t0']), new)
        if 'where' in which:
            if method == 'exact':
                a, b = z3.Ints('a b')
                unique(vc)
                lem = [unique_at(i, m, a, b, libnp._idiv(i, m), libnp._imod(i, m)), unique_at(i, m, a, b, libnp._idiv(N, m), i - m * libnp._idiv(N, m))]
                vc.prove('i = a m + b, 0 <= b < m: particle i starts at location b of the list', s, z3.And(r == S['sx'](b), c == S['sy'](b)),
                         new + [0 <= a, 0 <= b, b < m, i == a * m + b] + lem)
            else:
                dr = [x for x in s.events if x.kind == 'randint' or x.kind == 'draw']
                vc.flag('one draw per new row and column', len(dr) == 2 and all(len(x.binders) == 1 for x in dr), str(dr)[:300])
                for x in dr:
                    vc.prove('one draw per new particle', s, Z(x.binders[0][1]) == N)
                vc.prove('a new row is one of the listed rows', s, inlist(vc, s, S['sx'], r, m), new)
                vc.prove('a new column is one of the listed columns', s, inlist(vc, s, S['sy'], c, S['my']), new)
                shares(vc, s, dr, 'row', S['sx'], r, m, i, new)
                shares(vc, s, dr, 'column', S['sy'], c, S['my'], i, new)
        if 'grid' in which:
            vc.prove('a new particle is inside the grid', s, z3.And(0 <= r, r < M['L'], 0 <= c, c < M['W']), new)
        if 'vars' in which:
            for k in M['names']:
                vc.prove('%s: value of the cell of the particle' % k, s, eqF(e[k].at(0), grid_value(M, k, r, c)), new)
        for H, off, nm in ((S['prev'], z3.IntVal(0), 'previous'), (S['own'], pn, 'own')):
            if H is None:
                continue
            rng = [0 <= i, i < H['n']]
            D = funs(H)
            for k in names:
                q = vc.val(s, l[k].at(off + i))
                vc.prove('%s: %s histories keep their lengths' % (k, nm), s, Z(q.len) == H['len'](i), rng)
                if k in D:
                    vc.prove('%s: %s histories keep their entries' % (k, nm), s, entry_eq(q.at(j), D[k], i, j), rng + [0 <= j, j < H['len'](i)])
            if 'frame' in which:
                same_hist(vc, s, H, 'given %s walk data' % nm)
        if 'frame' in which:
            for d, ref, nm, k in ((S['sx'], S['X'], 'rows', m), (S['sy'], S['Y'], 'columns', S['my'])):
                q = vc.val(s, ref)
                if isinstance(q, LVal):
                    vc.prove('the list of %s is not changed' % nm, s, z3.And(Z(q.len) == k, z3.Implies(z3.And(0 <= j, j < k), Z(q.at(j)) == d(j))))
    return S


def shares(vc, s, draws, what, d, x, m, i, new):
    """the draw of x: every listed location has the same share of the drawing range"""
    own = []
    for e in draws:
        if len(e.binders) != 1:
            raise Unsupported('draw outside the loop over the new particles')
        f = lambda t: Z(T.subst(Z(t), [(e.binders[0][0], i)]))
        r, lo, hi = e.payload['r'], e.payload['lo'], e.payload['hi']
        r, lo, hi = [f(q.v if isinstance(q, F) else q) for q in (r, lo, hi)]
        if reaches(x, r.decl().name()):
            own.append((e.kind, r, lo, hi))
    if len(own) != 1:
        raise Unsupported('cannot tell the draws of rows and columns apart')
    kind, r, lo, hi = own[0]
    j = z3.Int('j$share')
    if kind == 'randint':
        vc.prove('%s: the range has one value per listed location' % what, s, hi - lo == m, new)
        vc.prove('%s: every listed location has its own value' % what, s, x == d(j), new + [0 <= j, j < m, r == lo + j])
        return
    r, lo, hi = T.ZR(r), T.ZR(lo), T.ZR(hi)
    h, jr = hi - lo, z3.ToReal(j)
    vc.prove('%s: the drawing range has length m or 1' % what, s, z3.Or(h == z3.ToReal(m), h == 1), new)
    vc.prove('%s: every listed location has the same share of the draws' % what, s, x == d(j), new + [0 <= j, j < m, h == z3.ToReal(m), jr < r - lo, r - lo < jr + 1])
    vc.prove('%s: every listed location has the same share of the draws (unit range)' % what, s, x == d(j),
             new + [0 <= j, j < m, h == 1, h != z3.ToReal(m), jr < (r - lo) * m, (r - lo) * m < jr + 1])


def reaches(x, name, depth=4):
    """the value x is defined in terms of the symbol name (by its term or by the axioms of its symbols)"""
    todo, seen = [(x, depth)], set()
    while todo:
        t, d = todo.pop()
        for a in every_app(t):
            n = a.decl().name()
            if n == name:
                return True
            if d and n not in seen:
                seen.add(n)
                for f in T.REG.ax.get(n, ()):
                    todo += [(q, d - 1) for q in f(*a.children())]
    return False


def every_app(t):
    seen, todo = set(), [t]
    while todo:
        q = todo.pop()
        if q.get_id() in seen or not z3.is_app(q):
            continue
        seen.add(q.get_id())
        todo += q.children()
        if q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield q


def unique_at(i, m, a, b, q, r):
    return z3.Implies(z3.And(m >= 1, i == a * m + b, 0 <= b, b < m, i == q * m + r, 0 <= r, r < m), z3.And(a == q, b == r))


def unique(vc):
    """lemma: quotient and remainder are unique"""
    i, m, a, b, q, r = z3.Ints('i$u m$u a$u b$u q$u r$u')
    h = [m >= 1, i == a * m + b, 0 <= b, b < m, i == q * m + r, 0 <= r, r < m]
    pos = lambda x: z3.Implies(x >= 0, x * m >= 0)
    vc.prove('lemma: product of numbers that are not negative', [m >= 1], pos(a))
    vc.prove('lemma: quotient not smaller', h + [pos(q - a - 1)], a >= q)
    vc.prove('lemma: quotient not greater', h + [pos(a - q - 1)], a <= q)
    vc.prove('lemma: same remainder', h + [a == q], b == r)


def inlist(vc, s, d, x, m):
    """x is d(k) for an index k: the witness is the argument of d in x"""
    ks = [a.arg(0) for a in T.apps_of(x, {d.name()})]
    return z3.Or(*([z3.And(0 <= k, k < m, d(k) == x) for k in ks] or [z3.BoolVal(False)]))


def prove_rejects(vc, exc, own=True, **over):
    """a call with the given wrong arguments raises exc and leaves the object and its particles alone"""
    S = start(vc, own, False, ('depth',), True)
    M = S['M']
    track = over.pop('track', None)
    P0 = vc.val(vc.st, M['P'])
    if track is not None:
        P0.attrs['tracked_variables'] = vc.I.alloc(vc.st, LVal(None, items=['xinds', 'yinds', 'travel_times'] + track))
    before = dict(P0.attrs)
    method = over.pop('method', 'exact')
    outs = generate(vc, S, method, **{k: (v(vc) if callable(v) else v) for k, v in over.items()})
    vc.flag('no call returns', not vc.returns(outs), '%d' % len(vc.returns(outs)))
    n = 0
    for kind, s, v in outs:
        if kind == 'raise':
            n += 1
            vc.flag('raises %s' % exc, v.exc == exc, '%s: %s' % (v.exc, v.msg))
            P = vc.val(s, M['P'])
            vc.flag('no attribute is rebound', set(P.attrs) == set(before) and all(same_attr(P.attrs[k], before[k]) for k in before),
                    str([k for k in P.attrs if not same_attr(P.attrs[k], before.get(k))]))
            if own:
                same_hist(vc, s, S['own'], 'present particles')
    vc.flag('the call raises', n > 0)


def same_attr(a, b):
    from pyvc.loops import _same_val
    return a is b or a == b if not isinstance(a, (F,)) and not isz(a) else a is b or _same_val(a, b)
