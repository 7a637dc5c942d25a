PROPERTY = 'C08'
FILE = 'dorado/particle_track.py'
EDITS = [('                    all_times[ii].append(travel_times[ii])\n                    for var in optional_vars:\n                        optional_vars[var][ii].append(updated_optional[var][ii])', '                    all_times[ii].append(travel_times[ii])\n                for var in optional_vars:\n                    optional_vars[var][ii].append(updated_optional[var][ii])')]
NEEDS = 'tracked variables and a particle that stays in place in a plain iteration'
BREAKS = 'tracked variables get an entry for an iteration in which the particle did not move'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nct = np.zeros((5, 9), dtype=int); ct[:, 0] = ct[:, -1] = ct[0] = ct[-1] = -1\np = pt.Particles(flat(5, 9, cell_type=ct, particle_variables=['depth']))\np.generate_particles(1, [1], [1], method='exact')\nw = p.run_iteration()\nassert len(w['depth'][0]) == len(w['xinds'][0]) == 1, w\n"
