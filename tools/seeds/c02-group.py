PROPERTY = 'C02'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    for i in range(0, len(new_inds)):\n        # If particle borders', '    for i in range(0, len(set(map(tuple, new_inds)))):\n        # If particle borders')]
NEEDS = 'several particles of which two share a target cell, and a later one next to an edge'
BREAKS = 'later particles next to an edge are moved on'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nct = np.zeros((5, 9), dtype=int); ct[2, 7] = -1\nnew = np.array([[2, 2], [2, 2], [2, 5]]); cur = [[2, 1], [2, 1], [2, 6]]\nout = lw.check_for_boundary(new, cur, ct)\nassert [list(map(int, x)) for x in out] == [[2, 2], [2, 2], [2, 6]], out\n"
