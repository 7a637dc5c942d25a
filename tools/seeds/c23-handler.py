PROPERTY = 'C23'
FILE = 'dorado/logging_config.py'
EDITS = [('    if not logger.handlers:', '    if not logger.handlers or (handler is not None and handler not in logger.handlers):')]
NEEDS = 'a handler passed after logging was already set up'
BREAKS = 'a second handler is attached'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nfrom dorado.logging_config import setup_logging, logger\nlogger.handlers.clear()\nsetup_logging('INFO'); setup_logging('DEBUG', handler=logging.NullHandler())\nassert len(logger.handlers) == 1, logger.handlers\n"
