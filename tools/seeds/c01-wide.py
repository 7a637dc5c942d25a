PROPERTY = 'C01'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    new_inds = np.array(new_inds, dtype=np.int32)', '    new_inds = np.array(new_inds).astype(np.int16)')]
NEEDS = 'a raster with more than 32767 rows or columns'
BREAKS = 'indices wrap around: the particle is recorded outside the grid'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nnp.random.seed(0)\nn = 33000\np = pt.Particles(flat(5, n))\np.generate_particles(3, [2], [32766], method='exact')\nfor _ in range(4):\n    try:\n        w = p.run_iteration()\n    except IndexError:\n        sys.exit('left the grid')\nassert all(0 <= y < n for a in w['yinds'] for y in a), w['yinds']\n"
