from common import *
from walks import rand_seq, drive


def cases(rng, tier):
    for k in range(200 if tier == 'quick' else 2500):
        yield dict(kind='seq', **rand_seq(rng, pv=rng.choice([None, None, ['depth'], ['u', 'stage']]), roi=rng.choice([None, True])))


def run(c):
    def vars_(P):
        return list(P.tracked_variables)

    def grow(P, w0, w1, what, one):
        check_aligned(w1, vars_(P), 'C08 after ' + what)
        n = len(w0['xinds'])
        need(len(w1['xinds']) == n, "C08 %s changed the number of particles" % what)
        for k in w0:
            need(k in w1, "C08 %s dropped %r" % (what, k))
            for i in range(n):
                m = len(w0[k][i])
                need(same(w0[k][i], w1[k][i][:m]), "C08 %s altered existing entries of %r of particle %d: %r -> %r" % (what, k, i, w0[k][i], w1[k][i]))
        for i in range(n):
            m = len(w0['xinds'][i])
            a = len(w1['xinds'][i])
            if one:
                need(a - m <= 1, "C08 a plain iteration appended %d entries" % (a - m))
            for e in range(m, a):
                need((w1['xinds'][i][e], w1['yinds'][i][e]) != (w1['xinds'][i][e - 1], w1['yinds'][i][e - 1]), "C08 %s appended an entry for particle %d that did not move" % (what, i))
            if P.diff_coeff <= 2:
                for e in range(max(m, 1), a):
                    need(w1['travel_times'][i][e] >= w1['travel_times'][i][e - 1], "C08 travel times of particle %d decrease: %r" % (i, w1['travel_times'][i]))

    def on_gen(P, o, w0, prev):
        check_aligned(P.walk_data, vars_(P), 'C08 after generate_particles')
        off = 0
        for src in (prev, w0):
            if src is not None:
                for k in src:
                    if k in P.walk_data:
                        for i in range(len(src['xinds'])):
                            need(same(src[k][i], P.walk_data[k][off + i]), "C08 generation changed or moved history %d of %r" % (i, k))
                off += len(src['xinds'])

    def on_it(P, o, w0, r):
        grow(P, w0, r, 'run_iteration', True)
        check_aligned(P.walk_data, None, 'C08 object walk data')
        need(same(P.walk_data, {k: r[k] for k in P.walk_data if k in r}) or same(P.walk_data, r), "C08 returned data and the object's own walk data differ")

    def on_target(P, o, w0, r, T, wt, ws):
        grow(P, w0, r, 'run_iteration(target_time)', False)
        need(same(P.walk_data, r), "C08 returned data and the object's own walk data differ")
    drive(c, on_gen, on_it, on_target)
