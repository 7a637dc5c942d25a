PROPERTY = 'C07'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('        projected_dist = dist*max(0, cos(', '        projected_dist = dist*max(1e-6, cos(')]
NEEDS = 'a step perpendicular to or against the flow'
BREAKS = 'such a step takes time'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\np = pt.Particles(flat(5, 6, diff_coeff=0.))\nt = lw.calc_travel_times(p, 3, [2, 3], [2, 2], 1.)\nassert t == 0, t\n"
