PROPERTY = 'C06'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    probs[probs < max_val] = 0\n', '    probs[probs < max_val*(1-1e-3)] = 0\n')]
NEEDS = 'two neighbours whose weights differ by less than a thousandth'
BREAKS = 'a direction of less than the greatest weight can be chosen in steepest descent'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(1)\nfor _ in range(60):\n    w = np.array([0., 0, .4998, 0, 0, .5, 0, 0, 0])\n    assert lw.steep_descent(w) == 5\n"
