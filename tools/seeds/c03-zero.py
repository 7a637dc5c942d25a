PROPERTY = 'C03'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 0))', '    zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 1e-6))')]
NEEDS = 'very small positive routing weights (shallow water and a large theta)'
BREAKS = 'a cell with an admissible direction is treated as a dead end, so weight goes to the deepest cell even if it is land'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nd = np.full((5, 5), .2); d[2, 1] = 5.\nct = np.zeros((5, 5), dtype=int); ct[2, 1] = 2\np = pt.Particles(flat(5, 5, depth=d, cell_type=ct, theta=12., gamma=0.))\nassert p.weight[2, 2, 3] == 0 and p.weight[2, 2, 5] > 0, p.weight[2, 2]\n"
