PROPERTY = 'C15'
FILE = 'dorado/particle_track.py'
EDITS = [("        for jj in list(range(len(walk_data['xinds'][ii]))):\n            visit_freq[walk_data['xinds'][ii][jj],\n                       walk_data['yinds'][ii][jj]] += 1\n", "        visit_freq[walk_data['xinds'][ii], walk_data['yinds'][ii]] += 1\n")]
NEEDS = 'a particle that comes back to a cell'
BREAKS = 'repeated visits of one particle to a cell count only once'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nw = dict(xinds=[[0, 0, 0, 0]], yinds=[[0, 1, 0, 2]], travel_times=[[0., 1., 2., 3.]])\na = pt.nourishment_area(w, (2, 3), sigma=0, clip=100)\nassert np.allclose(a[0], [1, .5, .5]), a\n"
