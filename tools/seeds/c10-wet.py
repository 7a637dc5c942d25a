PROPERTY = 'C10'
FILE = 'dorado/particle_track.py'
EDITS = [('                self.stage[self.depth == 0] = np.nan\n            except Exception:\n                raise ValueError("Water', '                self.stage[self.depth <= 0] = np.nan\n            except Exception:\n                raise ValueError("Water')]
NEEDS = 'negative depths (topography above the water surface)'
BREAKS = 'the stage of such cells is lost although their depth is not 0'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nd = np.ones((5, 6)); d[2, 2] = -0.5\np = pt.Particles(flat(5, 6, depth=d, stage=np.zeros((5, 6))))\nassert np.allclose(p.stage, 0), p.stage\n"
