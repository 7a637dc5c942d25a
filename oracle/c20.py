from common import *
import dorado.parallel_routing as pr


class Stub:
    """Records what a worker asks for; histories carry a private random tag per particle."""

    def __init__(self):
        self.walk_data = None
        self.n_it = 0

    def generate_particles(self, Np_tracer, seed_xloc, seed_yloc, *a, **k):
        tag = [float(np.random.random()) for _ in range(Np_tracer)]
        self.walk_data = {'xinds': [[seed_xloc[i % len(seed_xloc)]] for i in range(Np_tracer)],
                          'yinds': [[seed_yloc[i % len(seed_yloc)]] for i in range(Np_tracer)],
                          'travel_times': [[t] for t in tag], 'depth': [[t + 1] for t in tag]}

    def run_iteration(self, *a, **k):
        self.n_it += 1
        w = self.walk_data
        for i in range(len(w['xinds'])):
            t = w['travel_times'][i][0]
            w['xinds'][i].append(w['xinds'][i][-1])
            w['yinds'][i].append(w['yinds'][i][-1])
            w['travel_times'][i].append(t)
            w['depth'][i].append(t + 1)
        return w


class Later:
    def __init__(self, v):
        self.v = v

    def get(self, *a):
        return self.v

    def wait(self, *a):
        pass


class FakePool:
    """The tasks run one after another in this process and finish in the reverse order of their submission."""

    order = []

    def __init__(self, *a, **k):
        pass

    def _all(self, f, it, star=False):
        it = list(it)
        self.order += it
        r = {}
        for i in reversed(range(len(it))):
            r[i] = snap(f(*it[i]) if star else f(it[i]))
        return [r[i] for i in range(len(it))]

    def map(self, f, it, *a, **k):
        return self._all(f, it)

    def starmap(self, f, it, *a, **k):
        return self._all(f, it, True)

    def map_async(self, f, it, *a, **k):
        return Later(self._all(f, it))

    def imap(self, f, it, *a, **k):
        return iter(self._all(f, it))

    def imap_unordered(self, f, it, *a, **k):
        return iter(self._all(f, it)[::-1])

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        self.order += list(args)
        return Later(snap(f(*args, **kwds)))

    def apply(self, f, args=(), kwds={}):
        self.order += list(args)
        return snap(f(*args, **kwds))

    def close(self):
        pass
    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def cases(rng, tier):
    for k in range(150 if tier == 'quick' else 2000):
        nv = rng.randint(1, 5)
        names = ['xinds', 'yinds', 'travel_times', 'depth', 'roi_flag'][:nv]
        res = []
        uid = 0
        for wk in range(rng.randint(1, 5)):
            n = rng.randint(0, 4)
            res.append({v: [[uid + i * 100 + e for e in range(rng.randint(1, 3))] for i in range(n)] for v in names})
            uid += 10000
        if k % 5 == 0 and len(res) > 1:
            res[1] = snap(res[0])            # two workers with the same histories
        yield dict(kind='combine', res=res)
    for k in range(6):
        yield dict(kind='order', cores=rng.randint(2, 5), n_it=rng.choice([0, 1, 12]), Np=rng.randint(1, 4), same=k % 2 == 0)
    for k in range(8 if tier == 'quick' else 40):
        yield dict(kind='stub', cores=rng.randint(1, 4), n_it=rng.choice([0, 1, 3, 14]), Np=rng.randint(1, 4))
    for k in range(4 if tier == 'quick' else 15):
        m = rand_model(rng, big=True, edge=False, steep=False, wet='wet', pv=rng.choice([['depth'], []]), roi=False)
        yield dict(kind='worker', m=m, n_it=rng.randint(1, 4), Np=rng.randint(1, 4), k0=rng.randint(0, 3), it0=rng.randint(0, 2), seed=rng.randrange(10 ** 6))
        yield dict(kind='real', m=m, cores=rng.randint(2, 3), n_it=rng.randint(2, 5), Np=6, seed=rng.randrange(10 ** 6))


def run(c):
    if c['kind'] == 'combine':
        r0 = snap(c['res'])
        out = pr.combine_result(snap(c['res']))
        need(set(out) == set(r0[0]), "C20 combined variables %r" % sorted(out))
        for v in r0[0]:
            need(same(list(out[v]), [h for r in r0 for h in r[v]]), "C20 combine_result: %r is %r" % (v, out[v]))
        return
    if c['kind'] == 'order' and hasattr(pr, 'Pool') and hasattr(pr, 'run_iter'):
        old = pr.Pool, pr.run_iter
        FakePool.order = []

        def worker(o):
            s = 7 if c['same'] else [o is t for t in FakePool.order].index(True)
            return {'xinds': [[o.seed_xloc[0], i] for i in range(o.Np_tracer)], 'travel_times': [[0.0, s] for i in range(o.Np_tracer)]}
        pr.Pool, pr.run_iter = FakePool, worker
        try:
            out = pr.parallel_routing(Stub(), c['n_it'], c['Np'], [3], [5], c['cores'])
        except (AttributeError, ValueError):
            return               # the tasks are described in another way
        finally:
            pr.Pool, pr.run_iter = old
        seen = FakePool.order
        if not all(hasattr(o, 'num_iter') and hasattr(o, 'Np_tracer') for o in seen):
            return
        need(len(seen) == c['cores'], "C20 %d tasks for %d workers" % (len(seen), c['cores']))
        need(all(o.num_iter == c['n_it'] and o.Np_tracer == c['Np'] for o in seen), "C20 a worker is asked for %r" % [(o.num_iter, o.Np_tracer) for o in seen])
        need(len(out['xinds']) == len(out['travel_times']) == c['cores'] * c['Np'], "C20 %d histories from %d workers with %d particles" % (len(out['xinds']), c['cores'], c['Np']))
        need(list(out['xinds']) == [[3, i] for _ in range(c['cores']) for i in range(c['Np'])], "C20 histories out of order: %r" % (out['xinds'],))
        if not c['same']:
            per = [t[1] for t in out['travel_times']][::c['Np']]
            need([t[1] for t in out['travel_times']] == [s for s in per for _ in range(c['Np'])], "C20 the particles of the workers are mixed")
            need(per == list(range(c['cores'])), "C20 the histories are not in worker order: %r" % (per,))
            sd = [getattr(o, 'rng_seed', i) for i, o in enumerate(seen)]
            need(len(set(sd)) == len(sd), "C20 two workers have the same random seed")
        return
    if c['kind'] == 'stub':
        out = pr.parallel_routing(Stub(), c['n_it'], c['Np'], [3, 4], [5, 6, 7], c['cores'])
        n = c['cores'] * c['Np']
        for v in ('xinds', 'yinds', 'travel_times', 'depth'):
            need(len(out[v]) == n, "C20 %d histories of %r from %d workers with %d particles" % (len(out[v]), v, c['cores'], c['Np']))
        seen = set()
        for i in range(n):
            t = out['travel_times'][i][0]
            need(len(out['xinds'][i]) == c['n_it'] + 1, "C20 worker ran %d iterations instead of %d" % (len(out['xinds'][i]) - 1, c['n_it']))
            need(out['depth'][i][0] == t + 1, "C20 entry %d mixes particles" % i)
            k = i % c['Np']
            need(out['xinds'][i][0] == [3, 4][k % 2] and out['yinds'][i][0] == [5, 6, 7][k % 3], "C20 entry %d has the wrong seed location" % i)
            need(t not in seen, "C20 two workers used the same random stream (or a particle is duplicated)")
            seen.add(t)
        return
    np.random.seed(c['seed'])
    P = build(c['m'])
    if c['kind'] == 'worker':
        # an object that may already hold particles: the worker adds its own and moves all of them
        if c['k0']:
            P.generate_particles(c['k0'], [2], [2])
            for _ in range(c['it0']):
                P.run_iteration()
        w0 = snap(P.walk_data) if P.walk_data is not None else {v: [] for v in P.tracked_variables}
        o = pr.parallel_obj()
        o.particles, o.num_iter, o.Np_tracer, o.seed_xloc, o.seed_yloc, o.rng_seed = P, c['n_it'], c['Np'], [3], [4], 7
        out = pr.run_iter(o)
        need(len(out['xinds']) == c['k0'] + c['Np'], "C20 the worker returns %d particles, it holds %d and was to seed %d" % (len(out['xinds']), c['k0'], c['Np']))
        for i in range(c['k0'] + c['Np']):
            for v in P.tracked_variables:
                need(len(out[v][i]) == len(out['xinds'][i]), "C20 particle %d: %r not aligned" % (i, v))
                if i < c['k0']:
                    need(same(list(out[v][i])[:len(w0[v][i])], list(w0[v][i])), "C20 worker changed the earlier history of particle %d" % i)
            if i >= c['k0']:
                need(out['xinds'][i][0] == 3 and out['yinds'][i][0] == 4, "C20 worker seeded elsewhere")
        return
    out = pr.parallel_routing(P, c['n_it'], c['Np'], [3], [3], c['cores'])
    n = c['cores'] * c['Np']
    for v in P.tracked_variables:
        need(len(out[v]) == n, "C20 %d histories of %r, expected %d" % (len(out[v]), v, n))
        for i in range(n):
            need(len(out[v][i]) == len(out['xinds'][i]), "C20 particle %d: %r not aligned" % (i, v))
    for i in range(n):
        need(out['xinds'][i][0] == 3 and out['yinds'][i][0] == 3, "C20 worker seeded elsewhere")
        for v in P.tracked_variables:
            if v in P.available_particle_vars:
                for e in range(len(out[v][i])):
                    need(same(out[v][i][e], P.available_particle_vars[v][out['xinds'][i][e], out['yinds'][i][e]]), "C20 entry %d of %r belongs to another particle" % (i, v))
