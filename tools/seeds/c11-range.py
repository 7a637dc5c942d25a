PROPERTY = 'C11'
FILE = 'dorado/particle_track.py'
EDITS = [('            new_start_yindices = [lw.random_pick_seed(seed_yloc) for x\n                                  in list(range(Np_tracer))]\n', '            new_start_yindices = [seed_yloc[lw.random_pick_seed(\n                                      list(range(min(len(seed_xloc),\n                                                     len(seed_yloc)))))]\n                                  for x in list(range(Np_tracer))]\n')]
NEEDS = 'random seeding with more columns than rows listed'
BREAKS = 'the extra columns are never drawn'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(1)\np = pt.Particles(flat(8, 9))\np.generate_particles(200, [3], [2, 4, 6], method='random')\nassert sorted(set(int(a[0]) for a in p.walk_data['yinds'])) == [2, 4, 6], p.walk_data['yinds']\n"
