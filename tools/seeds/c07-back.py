PROPERTY = 'C07'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('        projected_dist = dist*max(0, cos(Particles.angles.flat[new_cell] -\n                                  Particles.velocity_angle[ind[0], ind[1]]))', '        projected_dist = dist*abs(cos(Particles.angles.flat[new_cell] -\n                                  Particles.velocity_angle[ind[0], ind[1]]))')]
NEEDS = 'a step against the flow'
BREAKS = 'a step against the flow accrues travel time'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\np = pt.Particles(flat(5, 5, diff_coeff=0.))\nt = lw.calc_travel_times(p, 3, (2, 2), (2, 1), 1.)\nassert abs(t) < 1e-12, t\nt = lw.calc_travel_times(p, 5, (2, 2), (2, 3), 1.)\nassert abs(t - 1) < 1e-6, t\n"
