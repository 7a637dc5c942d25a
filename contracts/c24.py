"""C24"""
from contracts.util import *
from pyvc.loops import Oblig
from pyvc.values import *
from pyvc.terms import band, ieq, toF

CONTRACTS = ['steady', 'steady_tracked', 'steady_nosave', 'time', 'time_tracked', 'unsteady_csv', 'unsteady_npy', 'unsteady_npz', 'exposure', 'exposure_tracked']


def state_contract(vc, np_):
    """get_state (C17): one list per basic variable with one entry per particle, and the tracked ones as a fourth element"""
    I = vc.I
    no = [0]

    def get_state(I, st, fr):
        w = I.content(st, fr['walk_data'])
        if not (isinstance(w, DVal) and 'calls' in w.d):
            raise Unsupported('state of something that is not the walk data')
        it = fr['iteration']
        if not (isinstance(it, int) and it in (0, -1)):
            raise Unsupported('state at another iteration')
        no[0] += 1

        def lst(nm, k):
            _, d = I.fresh(st, 'state_%s' % nm, z3.RealSort())
            f = z3.Function('st_%s_%d' % (nm, it), z3.IntSort(), z3.IntSort(), z3.RealSort() if k == 'f' else z3.IntSort())
            n = Z(w.d['calls'])
            return I.alloc(st, LVal(np_, fn=lambda i: F(f(n, Z(i))) if k == 'f' else f(n, Z(i))))
        out = [lst('x', 'i'), lst('y', 'i'), lst('t', 'f')]
        if w.d['tracked']:
            out.append(I.alloc(st, DVal({'depth': lst('d', 'f')})))
        return tuple(out)
    I.contracts['routines.get_state'] = get_state


def ghost_particles(vc, tracked):
    """a Particles object whose iteration is replaced by an abstract contract that counts the calls: each call returns the history so far"""
    I = vc.I
    np_ = vc.int('Np', 1)
    state_contract(vc, np_)
    DE, _, _ = vc.arr('depth', (vc.int('L', 1), vc.int('W', 1)))
    before = vc.int('before', 0)
    P = vc.obj('Particles', {'walk_data': I.alloc(vc.st, DVal({'calls': before, 'tracked': tracked})), 'depth': DE, 'ghost_steps': before})

    def step(I, st, fr):
        t = fr.get('target_time')
        if t is not None:
            I.obligs.append(Oblig('callee-pre', 'the iterations have no target time', list(st.pc), z3.BoolVal(False)))
        k = T.iadd(I.content(st, fr['self']).attrs['ghost_steps'], 1)
        I.set_attr(fr['self'], 'ghost_steps', k, st)
        w = I.alloc(st, DVal({'calls': k, 'tracked': tracked}))
        I.set_attr(fr['self'], 'walk_data', w, st)
        return w
    I.contracts['particle_track.Particles.run_iteration'] = step
    return P


def driver(vc, fn, tracked, saving, kw):
    P = ghost_particles(vc, tracked)
    n = vc.int('num_iter', 1)
    outs = vc.run('routines', fn, [P, n], kw)
    vc.no_raise(outs)
    before = z3.Int('before')
    for _, s, v in vc.returns(outs):
        p = vc.val(s, P)
        vc.prove('the iteration is called once per requested iteration', s, Z(p.attrs['ghost_steps']) == before + n)
        result(vc, s, v, before + n, saving)


def steady(vc):
    driver(vc, 'steady_plots', False, True, {})


def steady_tracked(vc):
    driver(vc, 'steady_plots', True, True, {'folder_name': 'out'})


def steady_nosave(vc):
    driver(vc, 'steady_plots', True, False, {'save_output': False})


def time(vc):
    driver(vc, 'time_plots', False, True, {})


def time_tracked(vc):
    driver(vc, 'time_plots', True, True, {'folder_name': 'out'})


KINDS = ['depth', 'stage', 'qx', 'qy', 'data']


def unsteady(vc, kind):
    """unsteady_plots over the abstract contracts of Particles: at model time step k the particles are built from the k-th output files,
    seeded at the requested locations (k = 0) or placed at the ends of the histories so far (k > 0), and iterated once to time (k+1)*timestep.
    The output folder holds any number of files of each of the kinds the format needs (the same number of each) and none of the others."""
    I = vc.I
    np_ = vc.int('Np', 1)
    state_contract(vc, np_)
    L, W = vc.int('L', 1), vc.int('W', 1)
    q = T.bound_int('q')
    N = vc.int('nfiles', 0)
    pre = {k: vc.decl('is_' + k, 1, z3.BoolSort()) for k in KINDS}
    fld = {k: vc.decl('FILE_' + k, 3) for k in KINDS[:4]}
    sel = {k: T.mk_filter(N, q, pre[k](q)) for k in KINDS}
    nout = vc.int('noutputs', 1)
    for k in KINDS:
        vc.st.assume(Z(sel[k][0]) == (nout if (k == 'data') == (kind == 'npz') else 0))
    steps, ts = vc.int('num_steps', 1), vc.real('timestep', lambda x: x > 0)
    xs, ys = (I.alloc(vc.st, LVal(vc.int('n' + a, 1), fn=vc.decl('seed_' + a, 1, z3.IntSort()))) for a in 'xy')
    dx = vc.flt('dx', lambda x: x > 0)

    def ob(st, name, goal, extra=()):
        I.obligs.append(Oblig('callee-pre', name, list(st.pc) + list(extra), Z(goal)))

    def listdir(I, st, a, k):
        return I.alloc(st, LVal(N, fn=lambda i: SStr(('file', Z(i)))))

    def startswith(I, st, s, p):
        if s.parts[0] == 'file' and p in pre:
            return pre[p](s.parts[1])
        raise Unsupported('string of unknown content')

    def sort(I, st, a, k):
        l = I.content(st, a[0])
        if not isinstance(l, LVal) or k:
            raise Unsupported('sorted')
        e = l.at(q)
        for kd in KINDS:
            if isinstance(e, SStr) and e.parts[0] == 'file' and T.same(e.parts[1], Z(sel[kd][1](q))) and T.same(l.len, sel[kd][0]):
                return I.alloc(st, LVal(l.len, fn=lambda i: SStr((kd, Z(i)))))
        raise Unsupported('sorted')

    def load(I, st, a, k):
        s = a[0]
        if not isinstance(s, SStr):
            raise Unsupported('file')
        arr = lambda kd, i: I.alloc(st, AVal((L, W), 'f', lambda idx: F(fld[kd](i, Z(idx[0]), Z(idx[1])))))
        if s.parts[0] in KINDS[:4]:
            return arr(s.parts[0], s.parts[1])
        if s.parts[0] == 'data':
            return I.alloc(st, DVal({kd: arr(kd, s.parts[1]) for kd in KINDS[:4]}))
        raise Unsupported('file')

    def join(I, st, a, k):
        if len(a) == 2 and isinstance(a[1], SStr) and a[1].parts[0] in KINDS:
            return a[1]
        return SStr(('path',))
    I.ext['os.listdir'] = listdir
    I.ext['str.startswith'] = startswith
    I.ext['sorted'] = sort
    I.ext['numpy.loadtxt'] = I.ext['numpy.load'] = load
    I.ext['os.path.join'] = join
    r, c = T.bound_int('r'), T.bound_int('c')

    def init(I, st, fr):
        p = I.content(st, fr['params'])
        d = {}
        for kd in KINDS[:4]:
            a = I.content(st, I.get_attr(fr['params'], kd, st))
            if not isinstance(a, AVal):
                raise Unsupported('field that is not an array')
            d[kd] = a
        I.set_attr(fr['self'], 'dx', I.get_attr(fr['params'], 'dx', st), st)
        for kd in KINDS[:4]:
            I.set_attr(fr['self'], 'field_' + kd, I.get_attr(fr['params'], kd, st), st)
        I.set_attr(fr['self'], 'walk_data', None, st)
        return None

    def generate(I, st, fr):
        n, pw = fr['Np_tracer'], fr['previous_walk_data']
        if pw is None:
            ob(st, 'the requested particles are seeded at the requested locations', band(ieq(n, np_), fr['seed_xloc'] == xs, fr['seed_yloc'] == ys))
            k = 0
        else:
            ob(st, 'no particles are added to the continued ones', ieq(n, 0))
            w = I.content(st, pw)
            if not (isinstance(w, DVal) and 'calls' in w.d):
                raise Unsupported('continuation of something that is not walk data')
            k = w.d['calls']
        I.set_attr(fr['self'], 'walk_data', I.alloc(st, DVal({'calls': k, 'tracked': False})), st)
        return None

    def step(I, st, fr):
        o = I.content(st, fr['self'])
        w = I.content(st, o.attrs['walk_data'])
        if not isinstance(w, DVal):
            raise Unsupported('iteration before seeding')
        k = w.d['calls']
        t = fr.get('target_time')
        ob(st, 'step k runs to time (k+1)*timestep', t is not None and Z(T.feq(toF(t), F(T.ZR(Z(k) + 1) * ts))))
        ob(st, 'the cell size is the given one', Z(T.feq(toF(o.attrs['dx']), dx)))
        for kd in KINDS[:4]:
            a = I.content(st, o.attrs['field_' + kd])
            ob(st, 'step k uses the %s of the k-th output' % kd, z3.And(Z(a.shape[0]) == L, Z(a.shape[1]) == W, R(a.get((r, c))) == fld[kd](Z(k), r, c), finite(a.get((r, c)))), [0 <= r, r < L, 0 <= c, c < W])
        w = I.alloc(st, DVal({'calls': T.iadd(k, 1), 'tracked': False}))
        I.set_attr(fr['self'], 'walk_data', w, st)
        return w
    I.contracts['particle_track.Particles.__init__'] = init
    I.contracts['particle_track.Particles.generate_particles'] = generate
    I.contracts['particle_track.Particles.run_iteration'] = step
    outs = vc.run('routines', 'unsteady_plots', [dx, np_, xs, ys, steps, F(ts), 'in', kind])
    vc.no_raise(outs)
    total = z3.If(steps <= nout, steps, nout)
    for _, s, v in vc.returns(outs):
        result(vc, s, v, total)


def result(vc, s, v, total, saving=True):
    w = vc.val(s, v)
    if not (isinstance(w, DVal) and 'calls' in w.d):
        raise Unsupported('the result is not walk data of the abstract iteration')
    vc.prove('the history of the last of the requested calls is returned', s, Z(w.d['calls']) == total)
    js = [e for e in s.events if e.kind == 'json']
    vc.prove('one history is saved' if saving else 'nothing is saved', s, len(js) == (1 if saving else 0) and not any(e.binders for e in js))
    for e in js:
        d = e.payload['snap']
        if not (isinstance(d, DVal) and 'calls' in d.d):
            raise Unsupported('the saved value is not walk data of the abstract iteration')
        vc.prove('the returned history is the one saved', s, Z(d.d['calls']) == total)
        overwrites(vc, s, e)


def overwrites(vc, s, e):
    f = e.payload['file']
    if not f or not f.startswith('file:'):
        raise Unsupported('file of unknown mode')
    vc.prove('the file holds nothing but the saved value', s, f[5:] in ('w', 'wt', 'w+', 'wt+', 'w+t', 'x', 'xt'))


def unsteady_csv(vc):
    unsteady(vc, 'csv')


def unsteady_npy(vc):
    unsteady(vc, 'npy')


def unsteady_npz(vc):
    unsteady(vc, 'npz')


def exposure_plot(vc, tracked, kw):
    """plot_exposure_time accepts the walk data of an iteration and one exposure time per particle"""
    I = vc.I
    np_ = vc.int('Np', 1)
    state_contract(vc, np_)
    w = I.alloc(vc.st, DVal({'calls': vc.int('calls', 0), 'tracked': tracked, 'xinds': I.alloc(vc.st, LVal(np_, fn=lambda i: Opaque('history')))}))
    e = vc.decl('exposure', 1)
    k = T.bound_int('k')
    T.REG.forall([k], e(k) >= 0)
    E = I.alloc(vc.st, LVal(np_, fn=lambda i: F(e(Z(i)))))
    td = vc.flt('timedelta', lambda x: x > 0)
    outs = vc.run('routines', 'plot_exposure_time', [w, E], dict(kw, timedelta=td, nbins=vc.int('nbins', 2)))
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        w1 = vc.val(s, w)
        vc.prove('the walk data are not modified', s, w1.d['calls'] is vc.val(vc.st, w).d['calls'])
        js = [x for x in s.events if x.kind == 'json']
        vc.prove('the exposure times are saved' if kw.get('save_output', True) else 'nothing is saved', s, len(js) == (1 if kw.get('save_output', True) else 0))
        for x in js:
            overwrites(vc, s, x)


def exposure(vc):
    exposure_plot(vc, False, {})


def exposure_tracked(vc):
    exposure_plot(vc, True, {'save_output': False, 'uniform_timesteps': True, 'show_thresholds': True})
