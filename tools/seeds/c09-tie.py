PROPERTY = 'C09'
FILE = 'dorado/particle_track.py'
EDITS = [('                    while abs(all_times[ii][-1] - target_time) >= \\', '                    while abs(all_times[ii][-1] - target_time) > \\')]
NEEDS = 'a clock exactly half an estimated step before the target'
BREAKS = 'a particle is not moved although its clock is as far from the target as the estimate'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\np = pt.Particles(flat(5, 9))\np.generate_particles(1, [2], [4], method='exact')\nnp.random.seed(0)\nw = p.run_iteration(target_time=0.05)\nassert len(w['xinds'][0]) == 2, w\n"
