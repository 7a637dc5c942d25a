PROPERTY = 'C12'
FILE = 'dorado/lagrangian_walker.py'
EDITS = [("        updated_optional['roi_flag'] = [1 if ROI[x, y] == 1 else 0 for x, y in new_inds]", "        updated_optional['roi_flag'] = [1 if ROI[x, y] else 0 for x, y in new_inds]")]
NEEDS = 'an ROI grid holding values other than 0 and 1'
BREAKS = 'the ROI flag recorded on a step is 1 outside the region'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\np = pt.Particles(flat(5, 9, roi_grid=np.full((5, 9), 2), gamma=0.))\np.generate_particles(1, [2], [2], method='exact')\nnp.random.seed(0)\nw = p.run_iteration()\nassert w['roi_flag'][0] == [0, 0], w\n"
