PROPERTY = 'C05'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))', '    idx = int(round(np.random.uniform(0, cutoffs[-1]-1)))')]
NEEDS = 'the distribution over many draws'
BREAKS = 'the first and last listed locations are picked half as often as the others'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(0)\nc = [lw.random_pick_seed([0, 1, 2]) for _ in range(3000)]\nassert all(abs(c.count(k) - 1000) < 120 for k in range(3)), [c.count(k) for k in range(3)]\n"
