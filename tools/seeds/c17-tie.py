PROPERTY = 'C17'
FILE = 'dorado/routines.py'
EDITS = [('        tt = np.argmin(np.abs(times_ii - target_time))', '        tt = len(times_ii) - 1 - np.argmin(np.abs(times_ii[::-1] - target_time))')]
NEEDS = 'a target time half way between two entries, or entries of equal time'
BREAKS = 'the later instead of the earliest nearest entry is returned'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport dorado.routines as rt\nw = dict(xinds=[[1, 2, 3]], yinds=[[1, 2, 3]], travel_times=[[0., 2., 2.]])\nassert rt.get_time_state(w, 1.)[0] == [1] and rt.get_time_state(w, 2.)[0] == [2]\n"
