"""Shared by C01, C02, C08, C12: Particles.run_iteration without a target time, on top of the contract of particle_stepper."""
from contracts.stepper import *


def start(vc, tracked=('depth', 'stage'), roi=True):
    M = world(vc, tracked, roi)
    H = with_walk(vc, M)
    abstract_stepper(vc, M)
    return M, H


def lists(vc, s, w, key, i):
    l = vc.val(s, w.d[key])
    return l, vc.val(s, l.at(i))


def prove_plain(vc, which, tracked=('depth', 'stage'), roi=True):
    M, H = start(vc, tracked, roi)
    n = H['n']
    outs = vc.run('particle_track', 'Particles.run_iteration', [M['P']])
    vc.no_raise(outs)
    i, j = z3.Ints('i j')
    rng = [0 <= i, i < n]
    ln = H['len'](i)
    old = [0 <= j, j < ln]
    D = dict(xinds=H['X'], yinds=H['Y'], travel_times=H['T'])
    D.update(H['E'])
    for _, s, v in vc.returns(outs):
        w = vc.val(s, v)
        me = vc.val(s, vc.val(s, M['P']).attrs['walk_data'])
        vc.cover('a particle', s, rng)
        for src, d in (('result', w), ('object', me)):
            ok = isinstance(d, DVal) and all(k in d.d for k in D)
            vc.flag('%s: all recorded variables present' % src, ok)
            if not ok:
                return
            lx, ex = lists(vc, s, d, 'xinds', i)
            ly, ey = lists(vc, s, d, 'yinds', i)
            lt, et = lists(vc, s, d, 'travel_times', i)
            m = Z(ex.len)
            p = src + ': '
            for k in D:
                l, e = lists(vc, s, d, k, i)
                vc.prove(p + '%s: as many particles as before' % k, s, Z(l.len) == n)
                vc.prove(p + '%s: as long as the rows' % k, s, Z(e.len) == m, rng)
            r0, c0, t0 = H['X'](i, ln - 1), H['Y'](i, ln - 1), H['T'](i, ln - 1)
            r1, c1, t1 = Z(ex.at(m - 1)), Z(ey.at(m - 1)), FF(et.at(m - 1))
            moved = z3.Or(r1 != r0, c1 != c0)
            if 'append' in which:
                vc.prove(p + 'nothing or one entry is appended', s, z3.Or(m == ln, m == ln + 1), rng)
                vc.prove(p + 'an entry is appended exactly when the particle moved', s, (m == ln + 1) == moved, rng)
                r2, c2, t2 = result(M, i)
                vc.prove(p + 'an entry is appended exactly when the step leads to another cell', s, (m == ln + 1) == z3.Or(r2 != r0, c2 != c0), rng)
                vc.prove(p + 'the new entry is the cell and time of the step', s, z3.And(r1 == r2, c1 == c2, finite(t1), R(t1) == t2), rng + [m == ln + 1])
                vc.cover('an entry is appended', s, rng + [m == ln + 1])
                for k, f in D.items():
                    e = lists(vc, s, d, k, i)[1]
                    vc.prove(p + '%s: earlier entries are kept' % k, s, entry_eq(e.at(j), f, i, j), rng + old)
                vc.prove(p + 'finite time', s, finite(t1), rng)
                vc.prove(p + 'time does not decrease (coefficient up to 2)', s, R(t1) >= t0, rng + [M['D'] <= 2])
            if 'grid' in which:
                vc.prove(p + 'the last entry is inside the grid', s, z3.And(0 <= r1, r1 < M['L'], 0 <= c1, c1 < M['W']), rng)
                vc.prove(p + 'each index changes by at most one', s, z3.And(r1 - r0 <= 1, r0 - r1 <= 1, c1 - c0 <= 1, c0 - c1 <= 1), rng)
                vc.prove(p + 'a new entry is another cell', s, moved, rng + [m > ln])
                none = z3.And(*[z3.Not(M['pos'](r0, c0, k)) for k in range(9)])
                vc.prove(p + 'without an admissible direction nothing is added', s, m == ln, rng + [none])
                for k in ('xinds', 'yinds'):
                    e = lists(vc, s, d, k, i)[1]
                    vc.prove(p + '%s: earlier entries are kept' % k, s, entry_eq(e.at(j), D[k], i, j), rng + old)
            if 'edge' in which:
                for k, f in D.items():
                    e = lists(vc, s, d, k, i)[1]
                    vc.prove(p + '%s: history of a particle next to an edge is unchanged' % k, s,
                             z3.And(Z(e.len) == ln, z3.Implies(z3.And(0 <= j, j < ln), entry_eq(e.at(j), f, i, j))), rng + [near_edge(M, r0, c0)])
            if 'vars' in which:
                for k in M['names']:
                    e = lists(vc, s, d, k, i)[1]
                    vc.prove(p + '%s: a new entry has the value of its own cell' % k, s, eqF(e.at(m - 1), grid_value(M, k, r1, c1)), rng + [m == ln + 1])
                    vc.prove(p + '%s: earlier entries are kept' % k, s, entry_eq(e.at(j), D[k], i, j), rng + old)
                    vc.prove(p + '%s: as long as the rows' % k, s, Z(e.len) == m, rng)
    return M, H, outs


def prove_target(vc, which, tracked=('stage',), roi=True, verbose=True):
    """run_iteration with a target time and a step limit"""
    M, H = start(vc, tracked, roi)
    n = H['n']
    vc.val(vc.st, M['P']).attrs['verbose'] = verbose

    def inside(st):
        # inference only: recorded cells are inside the grid
        a, b = z3.Ints('a$h b$h')
        w = vc.val(st, H['w'])
        f = []
        for key, hi in (('xinds', M['L']), ('yinds', M['W'])):
            x = Z(vc.val(st, vc.val(st, w.d[key]).at(a)).at(b))
            f += [0 <= x, x < hi]
        return [([a, b], z3.And(*f))]
    vc.I.hints.append(inside)
    target = vc.real('target')
    limit = vc.real('limit', lambda x: x >= 1)
    outs = vc.run('particle_track', 'Particles.run_iteration', [M['P'], F(target), F(limit)])
    vc.no_raise(outs)
    i, q, j = z3.Ints('i q j')
    rng = [0 <= i, i < n]
    ln = H['len'](i)
    D = dict(xinds=H['X'], yinds=H['Y'], travel_times=H['T'])
    D.update(H['E'])
    for _, s, v in vc.returns(outs):
        w = vc.val(s, v)
        me = vc.val(s, vc.val(s, M['P']).attrs['walk_data'])
        vc.cover('a particle', s, rng)
        ok = isinstance(w, DVal) and all(k in w.d for k in D)
        vc.flag('all recorded variables present', ok)
        held = isinstance(me, DVal) and all(k in me.d for k in D)
        vc.flag('the object holds all recorded variables', held)
        if not ok or not held:
            return
        for k in D:
            if me.d[k] != w.d[k]:
                (l1, e1), (l2, e2) = lists(vc, s, me, k, i), lists(vc, s, w, k, i)
                vc.prove('%s: the object holds the returned histories' % k, s, z3.And(Z(l1.len) == Z(l2.len), Z(e1.len) == Z(e2.len)), rng)
                vc.prove('%s: the object holds the returned entries' % k, s, eqF(FF(e1.at(j)), FF(e2.at(j))), rng + [0 <= j, j < Z(e2.len)])
        E = {k: lists(vc, s, w, k, i)[1] for k in D}
        m = Z(E['xinds'].len)
        steps = m - ln
        new = rng + [ln <= q, q < m]
        at = lambda k, x: E[k].at(x)
        r = lambda x: Z(at('xinds', x))
        c = lambda x: Z(at('yinds', x))
        t = lambda x: R(at('travel_times', x))
        vc.cover('an entry is appended', s, new)
        if 'append' in which:
            for k in D:
                vc.prove('%s: as many particles as before' % k, s, Z(lists(vc, s, w, k, i)[0].len) == n)
                vc.prove('%s: as long as the rows' % k, s, Z(E[k].len) == m, rng)
                vc.prove('%s: earlier entries are kept' % k, s, z3.And(m >= ln, entry_eq(at(k, j), D[k], i, j)), rng + [0 <= j, j < ln])
            vc.prove('finite times', s, finite(at('travel_times', q)), new)
            vc.prove('times do not decrease (coefficient up to 2)', s, t(q) >= t(q - 1), new + [M['D'] <= 2])
            r2, c2, t2 = result(M, i, q - ln)
            vc.prove('a new entry is the cell and time of its step', s, z3.And(r(q) == r2, c(q) == c2, t(q) == t2), new)
        if 'grid' in which:
            vc.prove('a new entry is inside the grid', s, z3.And(0 <= r(q), r(q) < M['L'], 0 <= c(q), c(q) < M['W']), new)
            vc.prove('a new entry touches the one before', s, z3.And(r(q) - r(q - 1) <= 1, r(q - 1) - r(q) <= 1, c(q) - c(q - 1) <= 1, c(q - 1) - c(q) <= 1), new)
            vc.prove('a new entry is another cell than the one before', s, z3.Or(r(q) != r(q - 1), c(q) != c(q - 1)), new)
            vc.prove('no step where no direction has weight', s, z3.Or(*[M['pos'](r(q - 1), c(q - 1), k) for k in range(9)]), new)
        if 'edge' in which:
            vc.prove('nothing is appended after an entry next to an edge', s, z3.Not(near_edge(M, r(q - 1), c(q - 1))), new)
            for k in D:
                vc.prove('%s: history of a particle next to an edge keeps its length' % k, s, Z(E[k].len) == ln, rng + [near_edge(M, H['X'](i, ln - 1), H['Y'](i, ln - 1))])
                vc.prove('%s: earlier entries are kept' % k, s, entry_eq(at(k, j), D[k], i, j), rng + [0 <= j, j < ln])
        if 'vars' in which:
            for k in M['names']:
                vc.prove('%s: a new entry has the value of its own cell' % k, s, eqF(at(k, q), grid_value(M, k, r(q), c(q))), new)
                vc.prove('%s: earlier entries are kept' % k, s, entry_eq(at(k, j), D[k], i, j), rng + [0 <= j, j < ln])
                vc.prove('%s: as long as the rows' % k, s, Z(E[k].len) == m, rng)
        if 'stop' in which:
            ab = lambda x: z3.If(x >= 0, x, -x)
            mx = lambda x: z3.If(x >= z3.Q(1, 10), x, z3.Q(1, 10))
            est = lambda x: z3.If(x >= 2, mx(t(x - 1) - t(x - 2)), z3.Q(1, 10))      # estimated step when the history has x entries
            far = lambda x: ab(t(x - 1) - target) >= ab(t(x - 1) + est(x) - target)
            vc.prove('a step is only taken while the clock is at least as far from the target as the clock plus the estimated step', s, far(q), new)
            vc.prove('no step once the clock has reached the target', s, t(q - 1) < target, new)
            vc.prove('at most as many steps as the limit', s, z3.ToReal(steps) <= limit, rng)
            stuck = lambda: nomove(vc, M, i, steps, r(m - 1), c(m - 1))
            vc.prove('it stops only near the target, next to an edge, at the step limit or where it cannot move', s,
                     z3.Or(z3.Not(far(m)), near_edge(M, r(m - 1), c(m - 1)), z3.ToReal(steps) + 1 > limit, stuck()), rng)
        if 'warn' in which:
            warnings(vc, s, M, H, i, lambda x: Z(lists(vc, s, w, 'xinds', x)[1].len), limit, rng, verbose)
    return M, H, outs


def warnings(vc, s, M, H, i, m_of, limit, rng, verbose):
    """one warning exactly if some particle reached the limit (and the object is verbose), naming exactly those particles"""
    ev = [e for e in s.events if e.kind == 'warn']
    if not verbose:
        vc.flag('no warning unless verbose', not ev)
        return
    one = len(ev) == 1 and not ev[0].binders
    vc.flag('a single warning', one, str(ev)[:300])
    if not one:
        return
    ls = [x for x in getattr(ev[0].payload['msg'], 'parts', ()) if isinstance(x, LVal)]
    vc.flag('it names a list of particles', len(ls) == 1, str(ev[0].payload)[:300])
    if len(ls) != 1:
        return
    l, g = ls[0], Z(ev[0].guard)
    hit = lambda x: z3.ToReal(m_of(x) - H['len'](x)) + 1 > limit
    x = z3.Int('x$named')
    e = Z(l.at(x))
    named = rng[:0] + [0 <= x, x < Z(l.len)]
    vc.cover('a particle is named', s, named + [g])
    vc.prove('every named particle exists', s, z3.And(0 <= e, e < H['n']), named)
    vc.prove('every named particle reached the step limit', s, hit(e), named)
    vc.prove('no particle is named twice', s, e < Z(l.at(x + 1)), [0 <= x, x + 1 < Z(l.len)])
    vc.prove('a warning only when some particle is named', s, Z(l.len) > 0, [g])
    c = Z(l.len)
    vc.flag('positions of the named particles are counted', z3.is_app(c) and c.num_args() == 1 and c.decl().name().startswith('Cnt'), str(c)[:200])
    w = c.decl()(i)
    vc.prove('every particle that reached the limit is named', s, z3.And(0 <= w, w < c, Z(l.at(w)) == i), rng + [hit(i)])
    vc.prove('a particle that is named causes the warning', s, g, [0 <= w, w < c])      # with the obligation above: every particle at the limit does


def result(M, *at):
    """cell and time of the (abstract) stepper: of particle at[0], its step number at[1]"""
    sc = M['last']['sc']
    if any(not isinstance(sc[k], z3.FuncDeclRef) or sc[k].arity() != len(at) for k in ('nr', 'nc', 'nt')):
        raise Unsupported('stepper not called once per step')
    return [sc[k](*at) for k in ('nr', 'nc', 'nt')]


def nomove(vc, M, i, k, r, c):
    """the step tried from (r, c), the k-th of particle i, did not move"""
    a = result(M, i, k)
    return z3.And(a[0] == r, a[1] == c)
