PROPERTY = 'C19'
FILE = 'dorado/particle_track.py'
EDITS = [('            gridded_data = (num/denom)\n            if boundary is not None:\n                gridded_data[outside] = np.nan # Crop to bounds\n            gridded_data.shape = (len(yvect), len(xvect))\n            gridded_data = np.flipud(gridded_data)\n            if boundary is not None and crop is True:\n                mask = ~np.isnan(gridded_data) # Delete all-nan border\n', '            gridded_data = (num/denom)\n            if boundary is not None:\n                gridded_data[outside] = np.nan # Crop to bounds\n            gridded_data.shape = (len(yvect), len(xvect))\n            mask = ~np.isnan(gridded_data) # Cells inside the bounds\n            gridded_data = np.flipud(gridded_data)\n            if boundary is not None and crop is True:\n')]
NEEDS = 'inverse-distance gridding cropped to a boundary that is not centred in y'
BREAKS = 'rows are cropped at the wrong end of the grid'
DEMO = "\nimport numpy as np, warnings, logging, sys\nwarnings.simplefilter('ignore')\nimport dorado.particle_track as pt, dorado.lagrangian_walker as lw\ndef P(**k):\n    p = pt.modelParams(); p.dx = 1.; p.verbose = None\n    for a, b in k.items(): setattr(p, a, b)\n    return p\ndef flat(L, W, **k):\n    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))\n    d.update(k)\n    return P(**d)\n\nx, y = [a.flatten() for a in np.meshgrid(np.arange(8.), np.arange(10.))]\nc = list(zip(x, y))\nb = [(.5, .5), (6.5, .5), (6.5, 3.5), (.5, 3.5)]\nf, full = pt.unstruct2grid(c, x + 10*y, 1., k_nearest_neighbors=3, boundary=b, crop=False)\ng, cut = pt.unstruct2grid(c, x + 10*y, 1., k_nearest_neighbors=3, boundary=b, crop=True)\nm = ~np.isnan(full)\nr, q = np.where(m)\nnp.testing.assert_allclose(cut, full[r.min():r.max()+1, q.min():q.max()+1])\n"
