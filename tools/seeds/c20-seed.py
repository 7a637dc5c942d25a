PROPERTY = 'C20'
FILE = 'dorado/parallel_routing.py'
EDITS = [('    pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,\n                                      pobj.seed_yloc)\n', '    if pobj.particles.walk_data is None:\n        pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,\n                                          pobj.seed_yloc)\n')]
NEEDS = 'a Particles object that already holds particles'
BREAKS = 'workers do not seed the requested particles'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport dorado.parallel_routing as pr\np = pt.Particles(flat(6, 9))\np.generate_particles(1, [2], [2])\no = pr.parallel_obj(); o.particles = p; o.num_iter = 1; o.Np_tracer = 3; o.seed_xloc = [3]; o.seed_yloc = [4]; o.rng_seed = 1\nw = pr.run_iter(o)\nassert len(w['xinds']) == 4, w\n"
