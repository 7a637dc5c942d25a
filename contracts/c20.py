"""C20: parallel runs lose, mix or duplicate nothing."""
from contracts.util import *

CONTRACTS = ['combine', 'combine_extra', 'routing']


def workers(vc, M, extra=()):
    """results of the workers: w -> walk data with n(w) particles, histories of arbitrary lengths and entries"""
    n = vc.decl('n', 1, z3.IntSort())
    k = z3.Int('k$n')
    T.REG.forall([k], n(k) >= 0)
    fields = ('xinds', 'yinds', 'travel_times') + tuple(extra)
    ln = {f: vc.decl('len_' + f, 2, z3.IntSort()) for f in fields}
    el = {f: vc.decl('E_' + f, 3, z3.IntSort() if f in ('xinds', 'yinds') else z3.RealSort()) for f in fields}

    def worker(w):
        d = {}
        for f in fields:
            d[f] = LVal(n(Z(w)), fn=lambda i, f=f: LVal(ln[f](Z(w), Z(i)), fn=lambda j: (lambda x: x if f in ('xinds', 'yinds') else F(x))(el[f](Z(w), Z(i), Z(j)))))
        return DVal(d)
    return fields, n, ln, el, worker


def combined(vc, s, v, M, fields, n, ln, el):
    w, i, j = T.bound_int('w'), T.bound_int('i'), T.bound_int('j')
    q = T.bound_int('q')
    off = lambda m: Z(T.mk_sum(m, q, n(q), 'int'))
    vc.prove('offsets grow', s, off(w + 1) == off(w) + n(w), [0 <= w, w < M])
    d = vc.val(s, v)
    vc.flag('the variables of the workers', isinstance(d, DVal) and sorted(d.d) == sorted(fields))
    for f in fields:
        l = vc.val(s, d.d[f])
        vc.prove('%s: every particle of every worker' % f, s, Z(l.len) == off(M))
        e = vc.val(s, l.at(off(w) + i))
        rng = [0 <= w, w < M, 0 <= i, i < n(w), off(w + 1) >= off(w)]
        vc.prove('%s: history lengths' % f, s, Z(e.len) == ln[f](w, i), rng)
        vc.prove('%s: entries' % f, s, num_eq(e.at(j), el[f](w, i, j)), rng + [0 <= j, j < ln[f](w, i)])


def combine(vc, extra=()):
    M = vc.int('M', 1)
    fields, n, ln, el, worker = workers(vc, M, extra)
    par = vc.I.alloc(vc.st, LVal(M, fn=worker))
    c0 = vc.val(vc.st, par)
    outs = vc.run('parallel_routing', 'combine_result', [par])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        combined(vc, s, v, M, fields, n, ln, el)
        vc.flag('the workers\' results are not modified', vc.val(s, par) is c0)


def combine_extra(vc):
    combine(vc, ('depth', 'speed'))


def ghost_particles(vc):
    """a Particles object whose seeding and iteration methods are replaced by abstract contracts that count the calls"""
    I = vc.I
    P = vc.obj('Particles', {'walk_data': None, 'ghost_seeded': 0, 'ghost_steps': 0, 'ghost_seeds': 0, 'ghost_rng': None, 'ghost_args': None})
    flags = []

    def generate(I, st, fr):
        c = I.content(st, fr['self'])
        seeds = [e for e in st.events if e.kind == 'seed']
        flags.append(('the random stream of the worker is seeded once, before its particles are generated', len(seeds) == 1 and not seeds[0].binders))
        if seeds:
            I.set_attr(fr['self'], 'ghost_rng', seeds[-1].payload['v'], st)
        flags.append(('the particles are seeded at the requested locations', fr['seed_xloc'] == M['xs'] and fr['seed_yloc'] == M['ys']))
        I.set_attr(fr['self'], 'ghost_seeded', T.iadd(c.attrs['ghost_seeded'], 1), st)
        I.set_attr(fr['self'], 'ghost_args', fr['Np_tracer'], st)
        I.set_attr(fr['self'], 'walk_data', I.alloc(st, DVal({'calls': c.attrs['ghost_steps']})), st)
        return None

    def step(I, st, fr):
        flags.append(('iterations have no target time', fr.get('target_time') is None))
        c = I.content(st, fr['self'])
        k = T.iadd(c.attrs['ghost_steps'], 1)
        I.set_attr(fr['self'], 'ghost_steps', k, st)
        w = I.alloc(st, DVal({'calls': k}))
        I.set_attr(fr['self'], 'walk_data', w, st)
        return w
    I.contracts['particle_track.Particles.generate_particles'] = generate
    I.contracts['particle_track.Particles.run_iteration'] = step
    loc = lambda nm: vc.I.alloc(vc.st, LVal(vc.int('n' + nm, 1), fn=vc.decl('s' + nm, 1, z3.IntSort())))
    M = dict(P=P, num=vc.int('num_iter', 0), Np=vc.int('Np_tracer', 1), xs=loc('x'), ys=loc('y'), flags=flags)
    return M


def routing(vc):
    """the tasks handed to the pool, the work done for each of them, and the combined result;
    Pool.map(f, tasks) is assumed to return [f(t) for t in tasks], f working on its own copy of its task"""
    M = ghost_particles(vc)
    I = vc.I
    cores = vc.int('num_cores', 1)
    fields, n, ln, el, worker = workers(vc, cores)
    seen = []

    def pool_map(I, st, a, k):
        tasks = I.content(st, a[1])
        if not isinstance(tasks, LVal):
            raise Unsupported('tasks of the workers')
        seen.append((st.copy(), a[0], tasks))
        return I.alloc(st, LVal(tasks.len, fn=worker))
    I.ext['Pool.map'] = pool_map
    outs = vc.run('parallel_routing', 'parallel_routing', [M['P'], M['num'], M['Np'], M['xs'], M['ys'], cores])
    vc.no_raise(outs)
    if len(seen) != 1:
        raise Unsupported('the workers are not started by one call of Pool.map')
    for _, s, v in vc.returns(outs):
        combined(vc, s, v, cores, fields, n, ln, el)
    s, f, tasks = seen[0]
    vc.prove('one task per worker', s, Z(tasks.len) == cores)
    w, u = T.bound_int('w'), T.bound_int('u')
    rng = [0 <= w, w < cores]
    s = s.copy()
    s.events = []
    for x in rng:
        s.assume(x)
    task = tasks.at(w)
    fn = f.qual.split('.')
    outs = vc.run(fn[0], '.'.join(fn[1:]), [I.alloc(s, task) if isinstance(task, (OVal, DVal, LVal)) else task], st=s)
    vc.no_raise(outs)
    for nm, ok in M['flags']:
        vc.flag(nm, ok)
    for _, s, v in vc.returns(outs):
        p = vc.val(s, M['P'])
        vc.prove('the particles are seeded once', s, Z(p.attrs['ghost_seeded']) == 1)
        vc.prove('with the requested number of particles', s, Z(p.attrs['ghost_args']) == M['Np'])
        vc.prove('the requested number of iterations is run', s, Z(p.attrs['ghost_steps']) == M['num'])
        wd = vc.val(s, v)
        vc.prove('the walk data of the last iteration is returned', s, Z(wd.d['calls']) == M['num'])
        seed = p.attrs['ghost_rng']
        vc.flag('the random stream is seeded once', len([e for e in s.events if e.kind == 'seed']) == 1)
        if seed is not None:
            vc.prove('every worker has its own random seed', s, Z(seed) != Z(T.subst(Z(seed), [(w, u)])), [0 <= u, u < cores, u != w])
