PROPERTY = 'C14'
FILE = 'dorado/particle_track.py'
EDITS = [("            current_reg = region_of_interest[int(walk_data['xinds'][ii][jj]),\n                                             int(walk_data['yinds'][ii][jj])]\n", "            current_reg = previous_reg\n            if walk_data['xinds'][ii][jj] != walk_data['xinds'][ii][jj-1] or jj == 1:\n                current_reg = region_of_interest[int(walk_data['xinds'][ii][jj]),\n                                                 int(walk_data['yinds'][ii][jj])]\n")]
NEEDS = 'a particle that enters or leaves the region along one row after its first step'
BREAKS = 'a region border crossed within a row goes unnoticed'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nw = dict(xinds=[[0, 0, 0]], yinds=[[0, 1, 2]], travel_times=[[0., 1., 3.]])\nr = np.array([[0, 0, 1, 1]])\ne = pt.exposure_time(w, r)\nassert e == [1.0], e\n"
