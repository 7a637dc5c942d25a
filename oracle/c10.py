from common import *


def cases(rng, tier):
    n = 250 if tier == 'quick' else 3000
    for k in range(n):
        L, W = rng.randint(3, 6), rng.randint(3, 6)
        nanp = rng.choice([0, .15])
        neg = rng.choice([0, 0, .2])
        depth = grid(rng, L, W, lambda: round(rng.uniform(-2, 0), 4) if rng.random() < neg else NAN if rng.random() < nanp else rng.choice([0.0, 1e-5, .05, round(rng.uniform(0, 5), 4)]))
        topo = grid(rng, L, W, lambda: round(rng.uniform(-4, 4), 4))
        stage = grid(rng, L, W, lambda: round(rng.uniform(-4, 6), 4))
        tnan = nanp if rng.random() < .3 else 0
        topo_n = [[NAN if rng.random() < tnan else v for v in r] for r in topo]
        fx = grid(rng, L, W, lambda: NAN if rng.random() < nanp else rng.choice([0.0, 1e-9, round(rng.gauss(0, 2), 4)]))
        fy = grid(rng, L, W, lambda: NAN if rng.random() < nanp else rng.choice([0.0, -1e-9, round(rng.gauss(0, 2), 4)]))
        geo = rng.choice(['ds', 'dt', 'st', 'dst'])
        flow = rng.choice(['q', 'v', 'q', 'v', 'qv'])
        m = dict(dx=rng.choice([1, 5.0]), model=rng.choice([None, 'DeltaRCM', 'other']), verbose=False)
        if 'd' in geo:
            m['depth'] = depth
        if 's' in geo:
            m['stage'] = stage
        if 't' in geo:
            m['topography'] = topo if 's' in geo and 'd' not in geo else topo_n if geo == 'dt' and False else topo
        if flow in ('q', 'qv'):
            m['qx'], m['qy'] = fx, fy
        if flow == 'v':
            m['u'], m['v'] = fx, fy
        if flow == 'qv':
            m['u'] = m['v'] = None
        yield dict(kind='ok', m=m)
    for k in range(40):
        L = W = 3
        g = lambda: grid(rng, L, W, lambda: round(rng.uniform(.1, 2), 3))
        m = dict(dx=1.0, depth=g(), stage=g(), qx=g(), qy=g(), model=rng.choice([None, 'DeltaRCM']), verbose=False)
        w = rng.choice(['dx', 'depth', 'stage', 'flow', 'half', 'mix', 'topo_only', 'stage_only', 'vel_half'])
        if w == 'dx':
            m.pop('dx')
        elif w == 'depth':
            m.pop('depth')
        elif w == 'stage':
            m.pop('stage')
        elif w == 'flow':
            m.pop('qx'), m.pop('qy')
        elif w == 'half':
            m.pop(rng.choice(['qx', 'qy']))
        elif w == 'mix':
            m.pop('qy')
            m['v'] = g()
        elif w == 'vel_half':
            m.pop('qx'), m.pop('qy')
            m[rng.choice(['u', 'v'])] = g()
        elif w == 'topo_only':
            m.pop('depth'), m.pop('stage')
            m['topography'] = g()
        elif w == 'stage_only':
            m.pop('depth')
        yield dict(kind='bad', m=m, w=w)


def run(c):
    m = c['m']
    if c['kind'] == 'bad':
        try:
            P = build(m)
        except ValueError:
            return
        except Exception as e:
            raise Bad("C10 incomplete inputs (%s) raised %r instead of ValueError" % (c['w'], e))
        raise Bad("C10 incomplete inputs (%s) were accepted" % c['w'])
    P = build(m)
    A = lambda k: np.array(m[k], dtype=float)
    if m.get('depth') is not None:
        d = A('depth')
        d[np.isnan(d)] = 0
    else:
        d = A('stage') - A('topography')
        d[~(d > 0)] = 0
    need(not np.any(np.isnan(P.depth)), "C10 depth contains NaN")
    need(same(P.depth, d) or np.allclose(P.depth, d, rtol=1e-9, atol=1e-12), "C10 depth differs from the inputs")
    s = A('stage') if m.get('stage') is not None else A('topography') + d
    need(bool(np.all(np.isnan(P.stage) == (d == 0))), "C10 stage is not NaN exactly where depth is 0")
    ok = d != 0
    need(np.allclose(P.stage[ok], s[ok], rtol=1e-9, atol=1e-9), "C10 stage differs from the inputs")
    use_q = m.get('qx') is not None and m.get('qy') is not None
    ax, ay = (A('qx'), A('qy')) if use_q else (A('u'), A('v'))
    if m.get('model') != 'DeltaRCM':
        ax, ay = -ay, ax
    ax, ay = np.nan_to_num(ax), np.nan_to_num(ay)
    if use_q:
        qx, qy = ax, ay
        u, v = qx * d / (d ** 2 + 1e-8), qy * d / (d ** 2 + 1e-8)
    else:
        u, v = ax, ay
        qx, qy = u * d, v * d
    for nm, got, e in [('qx', P.qx, qx), ('qy', P.qy, qy)]:
        need(np.allclose(got, e, rtol=1e-7, atol=1e-7), "C10 %s: %r, expected %r" % (nm, np.asarray(got).tolist(), e.tolist()))
    for nm, got, e in [('u', P.u, u), ('v', P.v, v)]:
        need(np.allclose(got, e, rtol=1e-6, atol=3e-8), "C10 %s: %r, expected %r" % (nm, np.asarray(got).tolist(), e.tolist()))
    need(not np.any(np.isnan(P.u)) and not np.any(np.isnan(P.v)), "C10 NaN velocity")
    need(bool(np.all(P.velocity >= 1e-8)), "C10 speed below 1e-8")
    need(np.allclose(P.velocity, np.maximum(np.sqrt(u ** 2 + v ** 2), 1e-8), rtol=1e-6, atol=5e-8), "C10 speed differs")
    da = np.asarray(P.velocity_angle) - np.arctan2(-np.asarray(P.u), np.asarray(P.v))
    need(np.allclose(np.cos(da), 1, atol=1e-9), "C10 flow angle is not atan2(-u, v)")
