PROPERTY = 'C22'
FILE = 'dorado/spatial.py'
EDITS = [('            j_max = min(j + window_size // 2 + 1, data.shape[1])', '            j_max = min(j + window_size // 2 + 1, data.shape[0])')]
NEEDS = 'a raster with more columns than rows'
BREAKS = 'windows are clipped at the number of rows, so values right of it become NaN'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport dorado.spatial as sp\na = sp.median_absolute_deviation_filter(np.ones((3, 9)), 3, 3)\nassert (a == 1).all(), a\n"
