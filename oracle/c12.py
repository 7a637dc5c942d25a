from common import *
from walks import rand_seq, drive

NAMES = ['depth', 'stage', 'qx', 'qy', 'u', 'v']


def cases(rng, tier):
    for k in range(180 if tier == 'quick' else 2000):
        pv = rng.sample(NAMES, rng.randint(0, 3))
        roi = rng.random() < .6
        if rng.random() < .2 and roi:
            pv = pv + ['roi_flag']
        c = rand_seq(rng, pv=pv, roi=False)
        c['m'].pop('particle_variables', None)
        if pv:
            c['m']['particle_variables'] = pv
        if roi:
            L, W = shape_of(c['m'])
            vals = rng.choice([[0, 1], [0, 1, 2], [0.0, 1.0, .5, NAN], [0, 1, -1]])
            c['m']['roi_grid'] = grid(rng, L, W, lambda: rng.choice(vals))
        for o in c['ops']:
            o.pop('strip', None)         # an entry recorded without the variable has no value to compare
        yield dict(kind='seq', **c)
    for k in range(20):
        yield dict(kind='bad', m=rand_model(rng, roi=False), name=rng.choice(['speed', 'roi_flag', 'Depth', 'cell_type', 'velocity']))
    for k in range(10):
        yield dict(kind='roishape', m=rand_model(rng, roi=False))


def run(c):
    if c['kind'] == 'bad':
        m = dict(c['m'])
        m['particle_variables'] = [c['name']]
        try:
            P = build(m)
            P.generate_particles(1, [1], [1], method='exact')
        except ValueError:
            return
        raise Bad("C12 tracking %r was not rejected" % c['name'])
    if c['kind'] == 'roishape':
        m = dict(c['m'])
        L, W = shape_of(m)
        m['roi_grid'] = [[1] * (W + 1)] * L
        try:
            build(m)
        except ValueError:
            return
        raise Bad("C12 an ROI grid of the wrong shape was accepted")
    skip = [0]

    def chk(P, w, what):
        names = [v for v in c['m'].get('particle_variables', [])]
        if c['m'].get('roi_grid') is not None and 'roi_flag' not in names:
            names.append('roi_flag')
        for v in names:
            need(v in w, "C12 %s: %r is not recorded" % (what, v))
            g = np.array(c['m']['roi_grid']) if v == 'roi_flag' else np.asarray(getattr(P, v))
            for i in range(len(w['xinds'])):
                need(len(w[v][i]) == len(w['xinds'][i]), "C12 %s: %r of particle %d is not aligned" % (what, v, i))
                for e in range(len(w['xinds'][i])):
                    val = w[v][i][e]
                    x, y = w['xinds'][i][e], w['yinds'][i][e]
                    exp = (1 if g[x, y] == 1 else 0) if v == 'roi_flag' else g[x, y]
                    if val is None and (i, e) in nones:
                        continue
                    need(same(val, exp), "C12 %s: %r of particle %d entry %d is %r, the grid at %r has %r" % (what, v, i, e, val, (x, y), exp))

    nones = set()

    def on_gen(P, o, w0, prev):
        n1 = len(prev['xinds']) if prev else 0
        if prev:
            sh = {(i + n1, e) for (i, e) in nones}
            nones.clear()
            nones.update(sh)
            if o.get('prev') == 'bare':
                for i in range(n1):
                    for e in range(len(prev['xinds'][i])):
                        nones.add((i, e))
        chk(P, P.walk_data, 'seeding')
    drive(c, on_gen, lambda P, o, w0, r: chk(P, r, 'iteration'), lambda P, o, w0, r, T, wt, ws: chk(P, r, 'target-time iteration'))
