PROPERTY = 'C20'
FILE = 'dorado/parallel_routing.py'
EDITS = [('    for result in par_result:\n        for var in result.keys():\n            single_result[var].extend(result[var])\n', '    seen = []\n    for result in par_result:\n        if result in seen:\n            continue\n        seen.append(result)\n        for var in result.keys():\n            single_result[var].extend(result[var])\n')]
NEEDS = 'two workers whose particles did exactly the same'
BREAKS = 'the particles of one of the workers are lost'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport dorado.parallel_routing as pr\nw = lambda: {'xinds': [[3, 3]], 'yinds': [[4, 5]], 'travel_times': [[0, 1.]]}\nr = pr.combine_result([w(), w(), w()])\nassert r['xinds'] == [[3, 3]]*3 and r['travel_times'] == [[0, 1.]]*3, r\n"
