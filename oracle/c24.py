import tempfile, shutil
from common import *
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.figure
import dorado.routines as rt


def cases(rng, tier):
    for k in range(26 if tier == 'quick' else 200):
        m = rand_model(rng, pv=rng.choice([[], ['depth'], ['u', 'stage']]), roi=rng.choice([False, True]))
        L, W = shape_of(m)
        k2 = rng.choice(['steady', 'steady_nosave', 'time', 'state']) if k else 'steady_nosave'
        yield dict(kind=k2, m=m, n=rng.randint(1, 4) if k else 55, again=k % 4 == 1, Np=rng.randint(1, 5), xs=[rng.randrange(L) for _ in range(3)], ys=[rng.randrange(W) for _ in range(3)], seed=rng.randrange(10 ** 6))
    for k in range(15 if tier == 'quick' else 60):
        n = 2 if k < 9 else rng.randint(1, 4) if k > 11 else 7
        L, W = rng.randint(5, 8), rng.randint(5, 8)
        ms = []
        for im in range(n):
            a, b, _s = rand_flow(rng, L, W, 'rand')
            d = rand_depth(rng, L, W, 'wet')
            ms.append(dict(depth=d, stage=[[round(10 + im + .1 * j + .2 * i, 4) for j in range(W)] for i in range(L)], qx=a, qy=b))
        yield dict(kind='unsteady', ms=ms, fmt=['csv', 'npy', 'npz'][k % 3], shift=k % 2, steps=n + (k // 3 - 1 if k < 9 else rng.choice([0, 0, 0, 1, -1 if n > 1 else 0])), ts=rng.choice([1.0, 7.5, .1, 60]), Np=rng.randint(1, 4), seed=rng.randrange(10 ** 6))
    for k in range(12 if tier == 'quick' else 80):
        m = rand_model(rng, pv=rng.choice([[], ['depth'], ['u']]), roi=rng.choice([False, True]), big=True, wet='wet')
        yield dict(kind=rng.choice(['expo', 'thr']), m=m, n=rng.randint(2, 12), frac=rng.choice([1.0, 1.0, .5, .95]), Np=rng.randint(5, 12), seed=rng.randrange(10 ** 6), uni=rng.random() < .5, show=rng.random() < .5, save=rng.random() < .5,
                   td=rng.choice([1, 60, 3600, 86400, 7]))


class Rec:
    """Counts calls of Particles.run_iteration and remembers arguments and (a copy of) what it returned."""

    def __enter__(self):
        self.calls = []
        self.rets = []
        self.old = pt.Particles.run_iteration
        rec = self

        def f(self_, *a, **k):
            pre = snap(self_.walk_data)
            r = rec.old(self_, *a, **k)
            rec.calls.append((a, dict(k), pre))
            rec.rets.append(snap(r))
            return r
        pt.Particles.run_iteration = f
        self.s1, self.s2 = plt.savefig, matplotlib.figure.Figure.savefig
        plt.savefig = lambda *a, **k: None
        matplotlib.figure.Figure.savefig = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        pt.Particles.run_iteration = self.old
        plt.savefig, matplotlib.figure.Figure.savefig = self.s1, self.s2
        plt.close('all')
        return False


def jsoned(w):
    return json.loads(json.dumps(w))


def run(c):
    tmp = tempfile.mkdtemp(prefix='dorado_c24_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(c, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(c, tmp):
    out = os.path.join(tmp, 'out')
    np.random.seed(c['seed'])
    k = c['kind']
    if k in ('steady', 'steady_nosave', 'time', 'state'):
        P = build(c['m'])
        P.generate_particles(c['Np'], c['xs'], c['ys'], method='exact')
        with Rec() as R:
            if k == 'state':
                w = P.run_iteration()
                rt.plot_state(P.depth, w, iteration=0)
                rt.plot_state(P.depth, w)
                rt.plot_state(P.depth, w, target_time=1.0)
                return
            if k == 'time':
                if c.get('again'):
                    quiet(rt.time_plots, P, 1, folder_name=out)
                    R.calls.clear()
                w = quiet(rt.time_plots, P, c['n'], folder_name=out)
            else:
                if c.get('again') and k == 'steady':
                    quiet(rt.steady_plots, P, 1, folder_name=out)
                    R.calls.clear()
                w = quiet(rt.steady_plots, P, c['n'], folder_name=out, save_output=(k == 'steady'))
        need(len(R.calls) == c['n'], "C24 %s ran %d iterations instead of %d" % (k, len(R.calls), c['n']))
        need(same(w, R.rets[-1]), "C24 %s does not return the history of the last iteration" % k)
        if k != 'steady_nosave':
            with open(os.path.join(out, 'data', 'data.txt')) as f:
                j = json.load(f)
            need(same(j, jsoned(R.rets[-1])), "C24 %s saved another history than it returned" % k)
        else:
            need(not os.path.exists(out), "C24 steady_plots(save_output=False) wrote output")
        return
    if k == 'unsteady':
        base = os.path.join(tmp, 'in')
        os.makedirs(base)
        # names of the same length, or the numbers 8, 9, 10, ...: sorted by name, the same for every quantity
        nums = sorted((str(8 + i) for i in range(len(c['ms']))) if c.get('shift') else [str(i) for i in range(len(c['ms']))])
        for i, m in zip(nums, c['ms']):
            if c['fmt'] == 'npz':
                np.savez(os.path.join(base, 'data%s.npz' % i), **{q: np.array(v) for q, v in m.items()})
            else:
                for q, v in m.items():
                    if c['fmt'] == 'csv':
                        np.savetxt(os.path.join(base, '%s%s.csv' % (q, i)), np.array(v), delimiter=',')
                    else:
                        np.save(os.path.join(base, '%s%s.npy' % (q, i)), np.array(v))
        n = min(c['steps'], len(c['ms']))
        L, W = len(c['ms'][0]['depth']), len(c['ms'][0]['depth'][0])
        built = []
        oldi = pt.Particles.__init__

        def ini(self_, p):
            built.append([np.array(getattr(p, q)) for q in ('depth', 'stage', 'qx', 'qy')])
            return oldi(self_, p)
        pt.Particles.__init__ = ini
        try:
            with Rec() as R:
                w = quiet(rt.unsteady_plots, 5.0, c['Np'], [L // 2], [W // 2], c['steps'], c['ts'], base, c['fmt'], folder_name=out)
        finally:
            pt.Particles.__init__ = oldi
        need(len(R.calls) == n, "C24 unsteady_plots ran %d iterations instead of %d" % (len(R.calls), n))
        for i in range(n):
            a, kw, pre = R.calls[i]
            T = kw.get('target_time', a[0] if a else None)
            need(T is not None and close(T, (i + 1) * c['ts']), "C24 unsteady step %d has target time %r, expected %r" % (i, T, (i + 1) * c['ts']))
            need(i >= len(built) or all(np.allclose(v, np.array(c['ms'][i][q])) for q, v in zip(('depth', 'stage', 'qx', 'qy'), built[i])), "C24 unsteady step %d uses another model output" % i)
            if i == 0:
                need(len(pre['xinds']) == c['Np'], "C24 unsteady run starts with %d particles" % len(pre['xinds']))
            else:
                need(all(same(pre[q], R.rets[i - 1][q]) for q in BASE), "C24 unsteady step %d does not continue the previous histories" % i)
        need(same(w, R.rets[-1]), "C24 unsteady_plots does not return the last history")
        with open(os.path.join(out, 'data', 'data.txt')) as f:
            need(same(json.load(f), jsoned(w)), "C24 unsteady_plots saved another history than it returned")
        return
    P = build(c['m'])
    L, W = P.depth.shape
    P.generate_particles(c['Np'], list(range(L)), [W // 2], method='random')
    for _ in range(c['n']):
        w = P.run_iteration()
    roi = np.zeros((L, W), int)
    roi[:, :max(1, int(W * c['frac']))] = 1
    e = quiet(pt.exposure_time, w, roi)
    w0, e0 = snap(w), list(e)
    with Rec() as R:
        f = rt.plot_exposure_time if k == 'expo' else rt.plot_exposure_time_thresholds
        kw = dict(show_thresholds=c['show']) if k == 'expo' else {}
        try:
            f(w, e, folder_name=out, timedelta=c['td'], nbins=50, save_output=c['save'], uniform_timesteps=c['uni'], **kw)
        except Exception as ex:
            raise Bad("C24 %s failed on walk data of an iteration: %r" % (f.__name__, ex))
    need(same(w, w0) and same(list(e), e0), "C24 plotting changed the walk data")
    if k == 'expo' and c['save']:
        with open(os.path.join(out, 'data', 'exposure_times.txt')) as fh:
            need(same(json.load(fh), e0), "C24 saved exposure times differ")
