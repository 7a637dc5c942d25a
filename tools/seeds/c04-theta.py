PROPERTY = 'C04'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    weight = depth_ind ** Particles.theta * weight', '    weight = tile_domain_array(Particles.depth) ** Particles.theta * weight')]
NEEDS = 'neighbours of different depth'
BREAKS = 'the depth exponent is applied to the depth of the cell left instead of the neighbour'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nd = np.ones((5, 5)); d[1, 3] = 2.\np = pt.Particles(flat(5, 5, depth=d, theta=2., gamma=0.))\nw = p.weight[2, 2]\nassert abs(w[2] / w[8] - 4.) < 1e-9, w\n"
