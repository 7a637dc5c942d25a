PROPERTY = 'C13'
FILE = 'dorado/particle_track.py'
EDITS = [('                   int(round((coordinates[i][0] - x_orig)/cellsize)))', '                   int((coordinates[i][0] - x_orig)/cellsize + 0.5))')]
NEEDS = 'a coordinate west of the raster origin'
BREAKS = 'points west of the origin are mapped to a column more than half a cell away'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\n(i, j), = pt.coord2ind([(-1.8, 0.2)], (0., 0.), (4, 4), 1.)\nassert j == -2, j\n"
