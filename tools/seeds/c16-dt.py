PROPERTY = 'C16'
FILE = 'dorado/particle_track.py'
EDITS = [("            next_dt = (walk_data['travel_times'][ii][jj+1] - \\\n                       walk_data['travel_times'][ii][jj])\n            time_total", "            next_dt = max(0.1, walk_data['travel_times'][ii][jj+1] - \\\n                       walk_data['travel_times'][ii][jj])\n            time_total")]
NEEDS = 'a step that takes less than 0.1 s'
BREAKS = 'steps of no duration count 0.1 s towards the residence time'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nw = dict(xinds=[[0, 0, 0]], yinds=[[0, 1, 2]], travel_times=[[0., 1., 1.]])\na = pt.nourishment_time(w, (1, 3), sigma=0, clip=100)\nassert abs(a[0, 1] - .5) < 1e-9, a\n"
