import os
D='/verif/tools/seeds/'
LW='dorado/lagrangian_walker.py'; PT='dorado/particle_track.py'; SP='dorado/spatial.py'; RT='dorado/routines.py'; PR='dorado/parallel_routing.py'; LC='dorado/logging_config.py'
HEAD='''
import numpy as np, warnings, logging, sys
warnings.simplefilter('ignore')
import dorado.particle_track as pt, dorado.lagrangian_walker as lw
def P(**k):
    p = pt.modelParams(); p.dx = 1.; p.verbose = None
    for a, b in k.items(): setattr(p, a, b)
    return p
def flat(L, W, **k):
    d = dict(depth=np.ones((L, W)), stage=np.ones((L, W)), qx=np.zeros((L, W)), qy=np.ones((L, W)), model='DeltaRCM', cell_type=np.zeros((L, W), dtype=int))
    d.update(k)
    return P(**d)
'''
def S(id, prop, file, edits, needs, breaks, demo):
    open(D+id+'.py','w').write('PROPERTY = %r\nFILE = %r\nEDITS = %r\nNEEDS = %r\nBREAKS = %r\nDEMO = %r\n' % (prop, file, edits, needs, breaks, HEAD + demo))

S('c02-group', 'C02', LW, [("    for i in range(0, len(new_inds)):\n        # If particle borders", "    for i in range(0, len(set(map(tuple, new_inds)))):\n        # If particle borders")],
  'several particles of which two share a target cell, and a later one next to an edge', 'later particles next to an edge are moved on', '''
ct = np.zeros((5, 9), dtype=int); ct[2, 7] = -1
new = np.array([[2, 2], [2, 2], [2, 5]]); cur = [[2, 1], [2, 1], [2, 6]]
out = lw.check_for_boundary(new, cur, ct)
assert [list(map(int, x)) for x in out] == [[2, 2], [2, 2], [2, 6]], out
''')
S('c03-zero', 'C03', LW, [("    zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 0))", "    zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 1e-6))")],
  'very small positive routing weights (shallow water and a large theta)', 'a cell with an admissible direction is treated as a dead end, so weight goes to the deepest cell even if it is land', '''
d = np.full((5, 5), .2); d[2, 1] = 5.
ct = np.zeros((5, 5), dtype=int); ct[2, 1] = 2
p = pt.Particles(flat(5, 5, depth=d, cell_type=ct, theta=12., gamma=0.))
assert p.weight[2, 2, 3] == 0 and p.weight[2, 2, 5] > 0, p.weight[2, 2]
''')
S('c04-norm', 'C04', LW, [("    weight_int[idx_int] /= tile_domain_array(norm_int)[idx_int]", "    weight_int[idx_sfc & idx_int] /= tile_domain_array(norm_int)[idx_sfc & idx_int]")],
  'a cell without any downhill neighbour among cells with discharge', 'discharge weights are not normalised where the water surface is flat, so weights are no convex blend', '''
p = pt.Particles(flat(5, 5, qy=np.full((5, 5), 7.), theta=0., gamma=0.25))
w = p.weight[2, 2]
r = np.sqrt(.5) / np.sqrt(2)
want = np.zeros(9); want[2] = want[8] = r; want[5] = 1.; want /= want.sum(); want *= .75
assert np.allclose(w, want), (w, want)
''')
S('c04-theta', 'C04', LW, [("    weight = depth_ind ** Particles.theta * weight", "    weight = tile_domain_array(Particles.depth) ** Particles.theta * weight")],
  'neighbours of different depth', 'the depth exponent is applied to the depth of the cell left instead of the neighbour', '''
d = np.ones((5, 5)); d[1, 3] = 2.
p = pt.Particles(flat(5, 5, depth=d, theta=2., gamma=0.))
w = p.weight[2, 2]
assert abs(w[2] / w[8] - 4.) < 1e-9, w
''')
S('c05-seed', 'C05', LW, [("    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))", "    idx = int(round(np.random.uniform(0, cutoffs[-1]-1)))")],
  'the distribution over many draws', 'the first and last listed locations are picked half as often as the others', '''
np.random.seed(0)
c = [lw.random_pick_seed([0, 1, 2]) for _ in range(3000)]
assert all(abs(c.count(k) - 1000) < 120 for k in range(3)), [c.count(k) for k in range(3)]
''')
S('c06-near', 'C06', LW, [("    probs[probs < max_val] = 0\n", "    probs[probs < max_val*(1-1e-3)] = 0\n")],
  'two neighbours whose weights differ by less than a thousandth', 'a direction of less than the greatest weight can be chosen in steepest descent', '''
np.random.seed(1)
for _ in range(60):
    w = np.array([0., 0, .4998, 0, 0, .5, 0, 0, 0])
    assert lw.steep_descent(w) == 5
''')
S('c07-back', 'C07', LW, [("        projected_dist = dist*max(0, cos(Particles.angles.flat[new_cell] -\n                                  Particles.velocity_angle[ind[0], ind[1]]))", "        projected_dist = dist*abs(cos(Particles.angles.flat[new_cell] -\n                                  Particles.velocity_angle[ind[0], ind[1]]))")],
  'a step against the flow', 'a step against the flow accrues travel time', '''
p = pt.Particles(flat(5, 5, diff_coeff=0.))
t = lw.calc_travel_times(p, 3, (2, 2), (2, 1), 1.)
assert abs(t) < 1e-12, t
t = lw.calc_travel_times(p, 5, (2, 2), (2, 3), 1.)
assert abs(t - 1) < 1e-6, t
''')
S('c08-stay', 'C08', PT, [("                    all_times[ii].append(travel_times[ii])\n                    for var in optional_vars:\n                        optional_vars[var][ii].append(updated_optional[var][ii])", "                    all_times[ii].append(travel_times[ii])\n                for var in optional_vars:\n                    optional_vars[var][ii].append(updated_optional[var][ii])")],
  'tracked variables and a particle that stays in place in a plain iteration', 'tracked variables get an entry for an iteration in which the particle did not move', '''
ct = np.zeros((5, 9), dtype=int); ct[:, 0] = ct[:, -1] = ct[0] = ct[-1] = -1
p = pt.Particles(flat(5, 9, cell_type=ct, particle_variables=['depth']))
p.generate_particles(1, [1], [1], method='exact')
w = p.run_iteration()
assert len(w['depth'][0]) == len(w['xinds'][0]) == 1, w
''')
S('c09-tie', 'C09', PT, [("                    while abs(all_times[ii][-1] - target_time) >= \\", "                    while abs(all_times[ii][-1] - target_time) > \\")],
  'a clock exactly half an estimated step before the target', 'a particle is not moved although its clock is as far from the target as the estimate', '''
p = pt.Particles(flat(5, 9))
p.generate_particles(1, [2], [4], method='exact')
np.random.seed(0)
w = p.run_iteration(target_time=0.05)
assert len(w['xinds'][0]) == 2, w
''')
S('c10-dry', 'C10', PT, [("                self.qy = params.qy\n                self.qy[np.isnan(self.qy)] = 0\n                self.v = self.qy*self.depth/(self.depth**2 + 1e-8)", "                self.qy = params.qy\n                self.qy[np.isnan(self.qy)] = 0\n                self.v = self.qy/(self.depth + 1e-8)")],
  'DeltaRCM discharge that is not zero in a dry cell', 'velocity in a cell of zero depth becomes 1e8 times the discharge instead of zero', '''
d = np.ones((5, 5)); d[2, 3] = 0.
p = pt.Particles(flat(5, 5, depth=d, qx=np.ones((5, 5)), qy=np.ones((5, 5))))
assert abs(p.v[2, 3]) < 1e-6 and abs(p.u[2, 3]) < 1e-6, (p.u[2, 3], p.v[2, 3])
''')
S('c11-prev', 'C11', PT, [("                optional_start_vars[var] = prev_var + new_var_list", "                optional_start_vars[var] = new_var_list + prev_var")],
  'previous walk data together with a tracked variable', 'tracked variables of previous particles end up with the new ones', '''
d = np.ones((5, 9)) + np.arange(9)
p = pt.Particles(flat(5, 9, depth=d, particle_variables=['depth']))
p.generate_particles(1, [2], [2], method='exact')
w = {k: [list(x) for x in v] for k, v in p.walk_data.items()}
q = pt.Particles(flat(5, 9, depth=d, particle_variables=['depth']))
q.generate_particles(1, [2], [6], method='exact', previous_walk_data=w)
assert [int(x[0]) for x in q.walk_data['depth']] == [3, 7], q.walk_data
''')
S('c12-roi', 'C12', LW, [("        updated_optional['roi_flag'] = [1 if ROI[x, y] == 1 else 0 for x, y in new_inds]", "        updated_optional['roi_flag'] = [1 if ROI[x, y] else 0 for x, y in new_inds]")],
  'an ROI grid holding values other than 0 and 1', 'the ROI flag recorded on a step is 1 outside the region', '''
p = pt.Particles(flat(5, 9, roi_grid=np.full((5, 9), 2), gamma=0.))
p.generate_particles(1, [2], [2], method='exact')
np.random.seed(0)
w = p.run_iteration()
assert w['roi_flag'][0] == [0, 0], w
''')
S('c13-west', 'C13', PT, [("                   int(round((coordinates[i][0] - x_orig)/cellsize)))", "                   int((coordinates[i][0] - x_orig)/cellsize + 0.5))")],
  'a coordinate west of the raster origin', 'points west of the origin are mapped to a column more than half a cell away', '''
(i, j), = pt.coord2ind([(-1.8, 0.2)], (0., 0.), (4, 4), 1.)
assert j == -2, j
''')
S('c14-row', 'C14', PT, [("            current_reg = region_of_interest[int(walk_data['xinds'][ii][jj]),\n                                             int(walk_data['yinds'][ii][jj])]\n", "            current_reg = previous_reg\n            if walk_data['xinds'][ii][jj] != walk_data['xinds'][ii][jj-1] or jj == 1:\n                current_reg = region_of_interest[int(walk_data['xinds'][ii][jj]),\n                                                 int(walk_data['yinds'][ii][jj])]\n")],
  'a particle that enters or leaves the region along one row after its first step', 'a region border crossed within a row goes unnoticed', '''
w = dict(xinds=[[0, 0, 0]], yinds=[[0, 1, 2]], travel_times=[[0., 1., 3.]])
r = np.array([[0, 0, 1, 1]])
e = pt.exposure_time(w, r)
assert e == [1.0], e
''')
S('c15-dup', 'C15', PT, [("        for jj in list(range(len(walk_data['xinds'][ii]))):\n            visit_freq[walk_data['xinds'][ii][jj],\n                       walk_data['yinds'][ii][jj]] += 1\n", "        visit_freq[walk_data['xinds'][ii], walk_data['yinds'][ii]] += 1\n")],
  'a particle that comes back to a cell', 'repeated visits of one particle to a cell count only once', '''
w = dict(xinds=[[0, 0, 0, 0]], yinds=[[0, 1, 0, 2]], travel_times=[[0., 1., 2., 3.]])
a = pt.nourishment_area(w, (2, 3), sigma=0, clip=100)
assert np.allclose(a[0], [1, .5, .5]), a
''')
S('c16-dt', 'C16', PT, [("            next_dt = (walk_data['travel_times'][ii][jj+1] - \\\n                       walk_data['travel_times'][ii][jj])\n            time_total", "            next_dt = max(0.1, walk_data['travel_times'][ii][jj+1] - \\\n                       walk_data['travel_times'][ii][jj])\n            time_total")],
  'a step that takes less than 0.1 s', 'steps of no duration count 0.1 s towards the residence time', '''
w = dict(xinds=[[0, 0, 0]], yinds=[[0, 1, 2]], travel_times=[[0., 1., 1.]])
a = pt.nourishment_time(w, (1, 3), sigma=0, clip=100)
assert abs(a[0, 1] - .5) < 1e-9, a
''')
S('c17-tie', 'C17', RT, [("        tt = np.argmin(np.abs(times_ii - target_time))", "        tt = len(times_ii) - 1 - np.argmin(np.abs(times_ii[::-1] - target_time))")],
  'a target time half way between two entries, or entries of equal time', 'the later instead of the earliest nearest entry is returned', '''
import dorado.routines as rt
w = dict(xinds=[[1, 2, 3]], yinds=[[1, 2, 3]], travel_times=[[0., 2., 2.]])
assert rt.get_time_state(w, 1.)[0] == [1] and rt.get_time_state(w, 2.)[0] == [2]
''')
S('c18-round', 'C18', PT, [("        add_idx = np.argsort(remainders)[-N_remaining:]", "        add_idx = np.argsort(N_float)[-N_remaining:]")],
  'a series where the largest discharge does not have the largest fractional share', 'extra particles go to the steps with the largest shares', '''
n = pt.flux_proportional_seeding(np.array([6.2, 1.9, 1.9]), 10, 3)
assert list(n) == [6, 2, 2], n
''')
S('c19-cover', 'C19', PT, [("    ny = int(np.ceil((max(y)-min(y))/cellsize)+1)", "    ny = int((max(y)-min(y))/cellsize)+1")],
  'a north-south extent that is no multiple of the cell size', 'the grid does not cover the northernmost points', '''
c = [(0., 0.), (2., 0.), (0., 2.5), (2., 2.5)]
f, g = pt.unstruct2grid(c, [0., 0., 1., 1.], 1., k_nearest_neighbors=1)
assert g.shape == (4, 3), g.shape
''')
S('c20-seed', 'C20', PR, [("    pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,\n                                      pobj.seed_yloc)\n", "    if pobj.particles.walk_data is None:\n        pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,\n                                          pobj.seed_yloc)\n")],
  'a Particles object that already holds particles', 'workers do not seed the requested particles', '''
import dorado.parallel_routing as pr
p = pt.Particles(flat(6, 9))
p.generate_particles(1, [2], [2])
o = pr.parallel_obj(); o.particles = p; o.num_iter = 1; o.Np_tracer = 3; o.seed_xloc = [3]; o.seed_yloc = [4]; o.rng_seed = 1
w = pr.run_iter(o)
assert len(w['xinds']) == 4, w
''')
S('c21-square', 'C21', SP, [("            c1 = cols if c == n_chunks_x - 1 else (c + 1) * resolution_factor\n\n            if np.any(in_regions[r0:r1, c0:c1]):\n                chunk_walk", "            c1 = cols if c == n_chunks_y - 1 else (c + 1) * resolution_factor\n\n            if np.any(in_regions[r0:r1, c0:c1]):\n                chunk_walk")],
  'a raster that is not square', 'system-wide chunks of a column range other than the last absorb all further columns', '''
import dorado.spatial as sp
ct = np.zeros((4, 6), dtype=int); ct[0, 5] = 1
w = dict(xinds=[[0, 0]], yinds=[[5, 4]], travel_times=[[0., 2.]])
r = sp.systemwide(w, np.zeros((4, 6)), ct, 2)
assert len(r) == 6 and r[2] == [1.] and all(isinstance(x, float) for i, x in enumerate(r) if i != 2), r
''')
S('c22-rect', 'C22', SP, [("            j_max = min(j + window_size // 2 + 1, data.shape[1])", "            j_max = min(j + window_size // 2 + 1, data.shape[0])")],
  'a raster with more columns than rows', 'windows are clipped at the number of rows, so values right of it become NaN', '''
import dorado.spatial as sp
a = sp.median_absolute_deviation_filter(np.ones((3, 9)), 3, 3)
assert (a == 1).all(), a
''')
S('c23-handler', 'C23', LC, [("    if not logger.handlers:", "    if not logger.handlers or (handler is not None and handler not in logger.handlers):")],
  'a handler passed after logging was already set up', 'a second handler is attached', '''
from dorado.logging_config import setup_logging, logger
logger.handlers.clear()
setup_logging('INFO'); setup_logging('DEBUG', handler=logging.NullHandler())
assert len(logger.handlers) == 1, logger.handlers
''')
S('c24-clamp', 'C24', RT, [("        num_steps = max(len(depthlist), len(datalist))\n", "        num_steps = len(depthlist)\n")],
  'npz model output and more steps asked than there are outputs', 'the clamp counts depth files only, so npz runs are cut to zero steps', '''
import tempfile, os, shutil
import dorado.routines as rt
d = tempfile.mkdtemp()
try:
    o = os.path.join(d, 'in'); os.mkdir(o)
    for i in range(2):
        np.savez(os.path.join(o, 'data%d.npz' % i), depth=np.ones((6, 8)), stage=np.ones((6, 8)), qx=np.ones((6, 8)), qy=np.zeros((6, 8)))
    w = rt.unsteady_plots(1., 2, [3], [3], 5, 1., o, 'npz', folder_name=os.path.join(d, 'out'))
    assert len(w['xinds']) == 2
finally:
    shutil.rmtree(d)
''')
