PROPERTY = 'C04'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [('    weight_int[idx_int] /= tile_domain_array(norm_int)[idx_int]', '    weight_int[idx_sfc & idx_int] /= tile_domain_array(norm_int)[idx_sfc & idx_int]')]
NEEDS = 'a cell without any downhill neighbour among cells with discharge'
BREAKS = 'discharge weights are not normalised where the water surface is flat, so weights are no convex blend'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\np = pt.Particles(flat(5, 5, qy=np.full((5, 5), 7.), theta=0., gamma=0.25))\nw = p.weight[2, 2]\nr = np.sqrt(.5) / np.sqrt(2)\nwant = np.zeros(9); want[2] = want[8] = r; want[5] = 1.; want /= want.sum(); want *= .75\nassert np.allclose(w, want), (w, want)\n"
