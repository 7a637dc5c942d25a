PROPERTY = 'C12'
FILE = 'dorado/particle_track.py'
EDITS = [("            'stage': self.stage,\n", "            'stage': np.nan_to_num(self.stage),\n")]
NEEDS = 'a tracked stage at a dry cell, where the stage is NaN'
BREAKS = '0 is recorded where the grid holds NaN'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\ns = np.ones((5, 6)); d = np.ones((5, 6)); d[2, 2] = 0\np = pt.Particles(flat(5, 6, depth=d, stage=s, particle_variables=['stage']))\np.generate_particles(1, [2], [2], method='exact')\na, b = p.walk_data['stage'][0][0], p.stage[2, 2]\nassert a == b or (a != a and b != b), (a, b)\n"
