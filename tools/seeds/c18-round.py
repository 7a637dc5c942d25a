PROPERTY = 'C18'
FILE = 'dorado/particle_track.py'
EDITS = [('        add_idx = np.argsort(remainders)[-N_remaining:]', '        add_idx = np.argsort(N_float)[-N_remaining:]')]
NEEDS = 'a series where the largest discharge does not have the largest fractional share'
BREAKS = 'extra particles go to the steps with the largest shares'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nn = pt.flux_proportional_seeding(np.array([6.2, 1.9, 1.9]), 10, 3)\nassert list(n) == [6, 2, 2], n\n"
