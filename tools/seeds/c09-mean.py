PROPERTY = 'C09'
FILE = 'dorado/particle_track.py'
EDITS = [('                        est_next_dt = max(0.1, all_times[ii][-1] -\n                                          all_times[ii][-2])\n                        count += 1\n', '                        est_next_dt = max(0.1, (all_times[ii][-1] -\n                                          all_times[ii][0])/count)\n                        count += 1\n')]
NEEDS = 'a velocity that changes along the path, or earlier target-time calls'
BREAKS = 'the next step is estimated by an average instead of the last step, so the particle stops at the wrong step'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(0)\nd = np.ones((7, 30)); d[:, 12:] = 10.\np = pt.Particles(flat(7, 30, qx=0*d, qy=np.ones((7, 30)), depth=d, diff_coeff=0., gamma=0.))\np.generate_particles(6, [3], [4], method='exact')\nfor T_ in (25., 31., 36., 43., 55.):\n    before = [list(t) for t in p.walk_data['travel_times']]\n    w = p.run_iteration(target_time=T_)\n    for t, b, x, y in zip(w['travel_times'], before, w['xinds'], w['yinds']):\n        for k in range(max(len(b), 2), len(t)):\n            assert abs(t[k-1]-T_) >= abs(t[k-1]+max(.1, t[k-1]-t[k-2])-T_), 'went on after it should have stopped'\n        n = len(t)\n        if n > 1 and t[-1] < T_ and 0 < x[-1] < 6 and 0 < y[-1] < 29:\n            assert abs(t[-1]-T_) < abs(t[-1]+max(.1, t[-1]-t[-2])-T_), 'stopped too early'\n"
