from common import *
from walks import rand_seq, drive


def cases(rng, tier):
    for k in range(160 if tier == 'quick' else 2000):
        c = rand_seq(rng)
        yield dict(kind='seq', **c)
    for k in range(60 if tier == 'quick' else 200):
        m = rand_model(rng)
        bad = rng.choice(['N', 'xs', 'ys', 'time', 'method_type', 'method', 'var', 'xs_str', 'N_none'])
        yield dict(kind='bad', m=m, bad=bad, existing=rng.random() < .8)
    for k in range(20):
        yield dict(kind='arr', m=rand_model(rng), N=rng.randint(1, 7), form=rng.choice(['np1', 'np2', 'float', 'strN']), method=rng.choice(['random', 'exact']))
    yield dict(kind='cover', m=rand_model(rng), seed=5)
    for k in range(3):
        yield dict(kind='share', m=rand_model(rng), a=rng.randint(1, 4), b=rng.randint(1, 4), seed=rng.randrange(10 ** 6))


def run(c):
    if c['kind'] == 'bad':
        P = build(c['m'])
        if c['existing']:
            P.generate_particles(3, [1, 1], [1, 2], method='exact')
        w0, n0 = snap(P.walk_data), P.Np_tracer
        a = dict(Np_tracer=2, seed_xloc=[1], seed_yloc=[1], seed_time=0, method='exact')
        b = c['bad']
        exp = (TypeError,)
        if b == 'N':
            a['Np_tracer'] = 'abc'
        elif b == 'N_none':
            a['Np_tracer'] = None
        elif b == 'xs':
            a['seed_xloc'] = 5
        elif b == 'xs_str':
            a['seed_xloc'] = ['a', 'b']
        elif b == 'ys':
            a['seed_yloc'] = 7
        elif b == 'time':
            a['seed_time'] = 'noon'
        elif b == 'method_type':
            a['method'] = 3
        elif b == 'method':
            a['method'] = 'bogus'
            exp = (ValueError,)
        elif b == 'var':
            P.tracked_variables = list(P.tracked_variables) + ['no_such_variable']
            exp = (ValueError,)
        try:
            P.generate_particles(**a)
        except (TypeError, ValueError) as e:
            need(type(e) in exp, "C11 invalid %s raised %r" % (b, e))
            need(same(w0, P.walk_data), "C11 rejected generation changed existing particles")
            return
        except Exception as e:
            raise Bad("C11 invalid %s raised %r" % (b, e))
        raise Bad("C11 invalid %s accepted" % b)
    if c['kind'] == 'arr':
        P = build(c['m'])
        xs, ys = [1, 2, 1, 0], [0, 1, 2, 1]
        f = {'np1': lambda v: np.array(v), 'np2': lambda v: np.array(v).reshape(2, 2), 'float': lambda v: [float(x) for x in v], 'strN': lambda v: list(v)}[c['form']]
        P.generate_particles(str(c['N']) if c['form'] == 'strN' else c['N'], f(xs), f(ys), method=c['method'])
        w = P.walk_data
        need(len(w['xinds']) == c['N'], "C11 %d particles instead of %d" % (len(w['xinds']), c['N']))
        for i in range(c['N']):
            if c['method'] == 'exact':
                need(w['xinds'][i] == [xs[i % 4]] and w['yinds'][i] == [ys[i % 4]], "C11 exact seeding put particle %d at %r" % (i, (w['xinds'][i], w['yinds'][i])))
            else:
                need(len(w['xinds'][i]) == 1 and w['xinds'][i][0] in xs and w['yinds'][i][0] in ys, "C11 random seeding left the lists")
            need(isint(w['xinds'][i][0]) and isint(w['yinds'][i][0]), "C11 seed location is not an integer index")
        return
    if c['kind'] == 'share':
        # every position of the lists has the same share: lists of different lengths, with repeated locations
        P = build(c['m'])
        np.random.seed(c['seed'])
        L, W = P.depth.shape
        N = 1500
        xs, ys = [0] + [q % L for q in range(c['a'])], [q % W for q in range(c['b'])] + [1] * 2
        P.generate_particles(N, xs, ys, method='random')
        for nm, l, got in (('row', xs, P.walk_data['xinds']), ('column', ys, P.walk_data['yinds'])):
            for v in set(l):
                e, f = l.count(v) / len(l), sum(g[0] == v for g in got) / N
                need(abs(e - f) <= 6.5 * math.sqrt(e * (1 - e) / N) + 2.0 / N, "C11 %s %d has share %.3f of the seeds, its share of the list is %.3f" % (nm, v, f, e))
        return
    if c['kind'] == 'cover':
        P = build(c['m'])
        np.random.seed(c['seed'])
        P.generate_particles(400, [0, 1, 2], [0, 2], method='random')
        w = P.walk_data
        need({x[0] for x in w['xinds']} == {0, 1, 2} and {y[0] for y in w['yinds']} == {0, 2}, "C11 random seeding misses listed locations")
        return

    def on_gen(P, o, w0, prev):
        w = P.walk_data
        n0 = len(w0['xinds']) if w0 else 0
        n1 = len(prev['xinds']) if prev else 0
        need(len(w['xinds']) == n0 + n1 + o['N'], "C11 %d particles after adding %d to %d" % (len(w['xinds']), o['N'], n0 + n1))
        need(P.Np_tracer == n0 + n1 + o['N'], "C11 Np_tracer is %r" % P.Np_tracer)
        for off, src in ((0, prev), (n1, w0)):
            if src:
                for k in BASE:
                    for i in range(len(src[k])):
                        need(same(src[k][i], w[k][off + i]), "C11 existing history %d changed or moved (%s): %r -> %r" % (i, k, src[k][i], w[k][off + i]))
        for i in range(o['N']):
            p = n0 + n1 + i
            for k in w:
                need(len(w[k][p]) == 1, "C11 new particle %d has %d entries of %r" % (i, len(w[k][p]), k))
            need(w['travel_times'][p][0] == o['t0'], "C11 new particle starts at time %r, seed time is %r" % (w['travel_times'][p][0], o['t0']))
            x, y = w['xinds'][p][0], w['yinds'][p][0]
            if o['method'] == 'exact':
                k = i % len(o['xs'])
                need((x, y) == (o['xs'][k], o['ys'][k]), "C11 exact particle %d at %r, expected %r" % (i, (x, y), (o['xs'][k], o['ys'][k])))
            else:
                need(x in o['xs'] and y in o['ys'], "C11 random particle %d at %r not in the lists" % (i, (x, y)))
    drive(c, on_gen=on_gen)
