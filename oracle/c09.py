import re
from common import *
from walks import rand_seq, drive, rand_gen


def cases(rng, tier):
    for k in range(220 if tier == 'quick' else 2500):
        c = rand_seq(rng, big=rng.random() < .5, wet=rng.choice([None, 'wet', 'wet']))
        L, W = shape_of(c['m'])
        if rng.random() < .5:
            c['m']['cell_type'] = grid(rng, L, W, lambda: 0)
        for _ in range(2):
            c['ops'].append(dict(op='target', dt=rng.choice([.05, .15, .3, 1.0, 2.0, 10.0, 50.0, 100.0]), max_iter=rng.choice([1, 2, 3, 10, 50.0]), verbose=rng.random() < .8))
        if k % 8 == 0:
            g = rand_gen(rng, L, W)
            g['t0'], g['N'] = 0, 3
            c['ops'] = [g, dict(op='target', dt=rng.choice([.05, .05, .1]), max_iter=10, verbose=True)]
        yield dict(kind='seq', **c)


def run(c):
    def est(ts):
        return max(.1, ts[-1] - ts[-2]) if len(ts) > 1 else .1

    def go_on(ts, T):
        return abs(ts[-1] - T) >= abs(ts[-1] + est(ts) - T)

    def margin(ts, T):
        if ts[-1] == 0 and est(ts) - T == T:
            return False    # exact in floating point: a tie counts as 'not closer yet'
        return abs(abs(ts[-1] - T) - abs(ts[-1] + est(ts) - T)) < 1e-9 * (1 + abs(T) + abs(ts[-1]))

    def on_target(P, o, w0, w1, T, wt, ws):
        hit = []
        ct = np.array(P.cell_type)
        for i in range(len(w0['xinds'])):
            m, a = len(w0['xinds'][i]), len(w1['xinds'][i])
            ts = w1['travel_times'][i]
            need(a - m <= o['max_iter'], "C09 particle %d took %d steps, max_iter is %r" % (i, a - m, o['max_iter']))
            if a - m >= o['max_iter']:
                hit.append(i)
            for e in range(m, a):
                need(go_on(ts[:e], T) or margin(ts[:e], T), "C09 particle %d stepped on at clock %r (target %r, estimate %r)" % (i, ts[e - 1], T, est(ts[:e])))
                need(ts[e - 1] < T or margin(ts[:e], T), "C09 particle %d was moved after its clock reached the target" % i)
            x, y = w1['xinds'][i][-1], w1['yinds'][i][-1]
            row = wt[x, y, :]
            can = row[4] <= 0 and np.any(row > 0) and not near_edge(ct, x, y) and (x, y) != (0, 0)
            if a - m < o['max_iter'] and can:
                need(not go_on(ts, T) or margin(ts, T), "C09 particle %d at %r stopped at clock %r although the target %r is not reached (estimate %r)" % (i, (x, y), ts[-1], T, est(ts)))
        uw = [str(x.message) for x in ws if x.category is UserWarning]
        if not o.get('verbose', True):
            need(not uw, "C09 warning although not verbose: %r" % uw)
        elif hit:
            need(len(uw) == 1, "C09 %d warnings for particles %r that hit the step limit" % (len(uw), hit))
            g = re.findall(r'\[([^\[\]]*)\]', uw[0])
            named = sorted(int(x) for x in re.findall(r'\d+', g[-1])) if g else sorted(int(x) for x in re.findall(r'\d+', uw[0]))
            need(named == hit, "C09 the warning names %r, the step limit was hit by %r" % (named, hit))
        else:
            need(not uw, "C09 warning although no particle hit the limit: %r" % uw)
    drive(c, on_target=on_target)
