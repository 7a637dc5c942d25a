PROPERTY = 'C21'
FILE = 'dorado/spatial.py'
EDITS = [('            c1 = cols if c == n_chunks_x - 1 else (c + 1) * resolution_factor\n\n            if np.any(in_regions[r0:r1, c0:c1]):\n                chunk_walk', '            c1 = cols if c == n_chunks_y - 1 else (c + 1) * resolution_factor\n\n            if np.any(in_regions[r0:r1, c0:c1]):\n                chunk_walk')]
NEEDS = 'a raster that is not square'
BREAKS = 'system-wide chunks of a column range other than the last absorb all further columns'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport dorado.spatial as sp\nct = np.zeros((4, 6), dtype=int); ct[0, 5] = 1\nw = dict(xinds=[[0, 0]], yinds=[[5, 4]], travel_times=[[0., 2.]])\nr = sp.systemwide(w, np.zeros((4, 6)), ct, 2)\nassert len(r) == 6 and r[2] == [1.] and all(isinstance(x, float) for i, x in enumerate(r) if i != 2), r\n"
