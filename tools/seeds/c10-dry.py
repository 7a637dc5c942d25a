PROPERTY = 'C10'
FILE = 'dorado/particle_track.py'
EDITS = [('                self.qy = params.qy\n                self.qy[np.isnan(self.qy)] = 0\n                self.v = self.qy*self.depth/(self.depth**2 + 1e-8)', '                self.qy = params.qy\n                self.qy[np.isnan(self.qy)] = 0\n                self.v = self.qy/(self.depth + 1e-8)')]
NEEDS = 'DeltaRCM discharge that is not zero in a dry cell'
BREAKS = 'velocity in a cell of zero depth becomes 1e8 times the discharge instead of zero'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nd = np.ones((5, 5)); d[2, 3] = 0.\np = pt.Particles(flat(5, 5, depth=d, qx=np.ones((5, 5)), qy=np.ones((5, 5))))\nassert abs(p.v[2, 3]) < 1e-6 and abs(p.u[2, 3]) < 1e-6, (p.u[2, 3], p.v[2, 3])\n"
