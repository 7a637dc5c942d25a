PROPERTY = 'C03'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 0))', 'zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 1e-8))')]
NEEDS = 'very shallow admissible neighbours, so that depth**theta makes every weight tiny'
BREAKS = 'a cell with an admissible direction is treated as a dead end: weight goes to land'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nd = np.full((5, 5), 1e-3); d[2, 3] = 2e-3; d[1, 1] = 5.\nc = np.zeros((5, 5), dtype=int); c[1, 1] = 2\np = pt.Particles(P(depth=d, stage=np.ones((5, 5)), qx=np.zeros((5, 5)), qy=np.ones((5, 5)), model='DeltaRCM', cell_type=c, dry_depth=1e-5, theta=4., gamma=0.))\nw = p.weight[2, 2]\nassert w[5] > 0 and w[0] == 0, w\n"
