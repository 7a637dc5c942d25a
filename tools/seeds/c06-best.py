PROPERTY = 'C06'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    max_val = np.nanmax(probs)\n', '    max_val = np.nanmax(np.delete(probs, 4))\n')]
NEEDS = 'steepest descent in a local pool: a dead end in which the current cell is among the deepest'
BREAKS = 'the particle leaves a cell it should rest in'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(0)\nw = np.array([0, 0, 0, 0, 1., 0.4, 0, 0.2, 0])\nassert lw.steep_descent(w.copy()) == 4, 'leaves the deepest cell'\n"
