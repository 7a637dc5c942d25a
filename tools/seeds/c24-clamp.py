PROPERTY = 'C24'
FILE = 'dorado/routines.py'
EDITS = [('        num_steps = max(len(depthlist), len(datalist))\n', '        num_steps = len(depthlist)\n')]
NEEDS = 'npz model output and more steps asked than there are outputs'
BREAKS = 'the clamp counts depth files only, so npz runs are cut to zero steps'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nimport tempfile, os, shutil\nimport dorado.routines as rt\nd = tempfile.mkdtemp()\ntry:\n    o = os.path.join(d, 'in'); os.mkdir(o)\n    for i in range(2):\n        np.savez(os.path.join(o, 'data%d.npz' % i), depth=np.ones((6, 8)), stage=np.ones((6, 8)), qx=np.ones((6, 8)), qy=np.zeros((6, 8)))\n    w = rt.unsteady_plots(1., 2, [3], [3], 5, 1., o, 'npz', folder_name=os.path.join(d, 'out'))\n    assert len(w['xinds']) == 2\nfinally:\n    shutil.rmtree(d)\n"
