#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
LW, PT, SP, RT, PR, LC = ("dorado/lagrangian_walker.py", "dorado/particle_track.py", "dorado/spatial.py",
                      "dorado/routines.py", "dorado/parallel_routing.py", "dorado/logging_config.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Particles never leave the grid and move one D8 cell at a time",
 "For a Particles object built on any grid of at least 3x3 cells with the default D8 tables, whatever the flow field, cell types, random draws or routing mode, every location ever recorded for a particle seeded inside the grid is a non-negative index pair inside the grid. Two consecutive recorded locations of a particle are always different cells that touch (each index changes by at most one). A particle with no admissible direction stays where it is.",
 ["inputs", "histories"], "all grids, flow fields, cell types, seeds, random draws, any number of iterations",
 "The tests follow a handful of particles seeded mid-grid for a few steps; the guarantee ranges over every seed cell (borders and corners included), every weight field and every draw.",
 [LW, PT], [("particle_stepper", LW), ("check_for_boundary", LW), ("calculate_new_ind", LW), ("get_weight / random_pick / steep_descent", LW), ("Particles.run_iteration", PT)],
 [("walk_data['xinds'], walk_data['yinds']", "recorded row and column of every particle at every step", PT)], ["walk_data returned by run_iteration", "output of particle_stepper"])

prop("C02", "A particle next to a domain edge is stopped for good",
 "A particle whose current cell is an edge cell (cell type -1) or has an edge cell among its eight neighbours is never moved again: its location, its travel time and its recorded history stay exactly as they are through any number of later iterations, in both the one-step and the target-time mode. Every other particle is unaffected by that rule, and particles are handled independently of each other.",
 ["inputs", "histories"], "all cell-type rasters, all positions including the first and last rows and columns, all numbers of particles",
 "One test checks one hand-made 3x3 raster; border rows, corners and groups of particles are not sampled.",
 [LW, PT], [("check_for_boundary", LW), ("Particles.run_iteration edge test", PT)], None, ["output of check_for_boundary", "walk_data"])

prop("C03", "Routing weights never lead a particle onto dry, land or border traps",
 "In the routing weights of every Particles object no weight is negative, all nine weights of every border cell are zero, and the weight towards a neighbour that is no deeper than dry_depth or is a land cell (type 2) is zero whenever some direction has a positive routing weight. Only in a dead end (no positive weight in any direction) is weight given instead to exactly the deepest of the nine cells (the cell itself included).",
 ["inputs"], "all grid shapes >= 3x3, depth/stage/discharge fields, cell types, theta >= 0, 0 <= gamma <= 1, dry_depth >= 0",
 "Tests use 5x5 grids with one or two special cells; the masks must be right for every cell and every neighbour direction at once.",
 [LW], [("make_weight", LW), ("big_sliding_window / tile_* / clear_borders", LW)], [("Particles.weight", "L x W x 9 routing weights", LW)], ["Particles.weight"])

prop("C04", "Routing weights follow the documented gamma/theta blend",
 "At every interior wet, non-dead-end cell the weight of each wet non-land neighbour k is depth_k^theta * (gamma*S_k + (1-gamma)*I_k), where S_k is the positive water-surface drop towards k over the D8 distance and I_k the positive projection of the cell's discharge on direction k over that distance, each normalised by its sum over the admissible neighbours when that sum is positive. Hence gamma=1 makes the weights independent of discharge, gamma=0 independent of stage, and theta=0 independent of how deep the wet neighbours are.",
 ["inputs"], "all grids, fields and parameter values (theta >= 0, 0 <= gamma <= 1)",
 "No test computes a weight by the documented formula; only orderings in symmetric 5x5 cases are asserted.",
 [LW], [("make_weight", LW)], [("Particles.weight", "L x W x 9 routing weights", LW)], ["Particles.weight"])

prop("C05", "Random choices are drawn in exact proportion to the weights",
 "In random-walk mode one uniform draw decides the direction and, with NaN weights counting as zero, direction k is chosen exactly for a set of draws whose share of the drawing range is weight_k / sum of weights; a direction of zero weight is never chosen, and when no direction has positive weight the particle stays put. Random seeding picks each listed location with equal probability and never anything outside the list.",
 ["inputs"], "all weight vectors with non-negative or NaN entries, all draws, all candidate lists",
 "A seeded test sees one draw; proportionality quantifies over all draws and all weight vectors.",
 [LW], [("random_pick", LW), ("get_weight", LW), ("random_pick_seed", LW)], None, ["return value of random_pick / random_pick_seed as a function of the draw"])

prop("C06", "Steepest descent always takes a direction of greatest weight",
 "In steepest-descent mode the chosen direction is one of the eight neighbours and its weight equals the greatest of the nine routing weights of the current cell (NaNs ignored); ties are broken uniformly among the tied neighbours. If no neighbour attains a positive greatest weight the particle stays, and choosing does not change which directions will be chosen at that cell later.",
 ["inputs", "histories"], "all weight vectors, all draws, any number of visits to the same cell",
 "Tests check the flag is stored and two fixed picks; repeated visits and dead ends are not sampled.",
 [LW], [("steep_descent", LW), ("get_weight", LW)], [("Particles.weight", "updated in place by the pick", LW)], ["return value of steep_descent / get_weight"])

prop("C07", "Travel time of a step follows the documented law",
 "A step to a different cell takes 0.5 * d * max(0, cos(phi)) * (1/v_old + 1/v_new) * (1 + diff), where d is the D8 step length times dx, phi the angle between the step and the flow at the cell being left, and diff lies within half the diffusion coefficient of zero (exactly zero when that coefficient is not positive). The result is finite and never negative for coefficients up to 2, a particle that does not move accrues no time, and steps perpendicular to or against the flow take none.",
 ["inputs"], "all positive speeds, angles, cell sizes, coefficients in [0, 2] and draws",
 "One test checks one number for one direction with a hand-set velocity field.",
 [LW, PT], [("calc_travel_times", LW), ("step_update", LW), ("Particles.__init__ direction tables", PT)], None, ["return value of calc_travel_times", "walk_data['travel_times']"])

prop("C08", "Walk histories stay aligned, append-only and time-ordered",
 "After any sequence of particle generation and iteration calls every particle has equally many recorded rows, columns, travel times and values of every tracked variable. An iteration never alters or removes an existing entry and never moves an entry between particles; a plain iteration appends at most one entry per particle, exactly when that particle moved. With a diffusion coefficient of at most 2, travel times never decrease along a history.",
 ["histories", "inputs"], "all call sequences, any number of particles, any tracked variables, previous walk data with or without them",
 "Tests run one or two calls on one particle and compare a few entries; the invariant must survive every call from every reachable state.",
 [PT, LW], [("Particles.generate_particles", PT), ("Particles.run_iteration", PT), ("particle_stepper", LW)], [("walk_data", "per-particle histories keyed by variable", PT)], ["walk_data"])

prop("C09", "Target-time iteration stops each particle at the right step",
 "With a target time, each particle takes steps as long as its clock is at least as far from the target as its clock plus the estimated next step (the last step duration, never less than 0.1), and stops otherwise, when it cannot move, when it is next to an edge, or after max_iter steps; it is never moved once its clock has reached the target. When at least one particle hits the step limit one warning is issued (if verbose) that names exactly the particles that did.",
 ["inputs", "histories"], "all histories, targets and iteration limits, any number of particles including zero",
 "Tests run one particle to one target; limits, groups of particles and already-late particles are not sampled.",
 [PT], [("Particles.run_iteration (target_time branch)", PT)], None, ["walk_data after run_iteration(target_time=...)", "warnings"])

prop("C10", "Model fields are normalised consistently when Particles is built",
 "Whichever accepted combination of inputs is given (two of depth, stage, topography; discharge or velocity; DeltaRCM or map convention), the resulting depth has no NaN, stage is depth plus topography (or as given) and NaN exactly where depth is 0, discharge is velocity times depth (velocity being discharge/depth up to the 1e-8 regularisation), map-convention fields (east, north) are rotated to (row, column) = (-north, east), speed is at least 1e-8 everywhere, and the flow angle is atan2(-row velocity, column velocity). A set of inputs that leaves depth, stage, cell size or the flow undefined raises ValueError.",
 ["configurations", "inputs"], "all combinations of supplied inputs and all field values, NaNs included",
 "Tests check a few combinations on constant 3x3 arrays.",
 [PT], [("Particles.__init__", PT)], [("Particles.depth/stage/qx/qy/u/v/velocity/velocity_angle", "normalised fields", PT)], ["attributes of Particles"])

prop("C11", "Seeding creates exactly the requested particles where asked",
 "Generating N particles adds exactly N one-entry histories, each with the given seed time, after any particles already present (previous walk data first, then the object's own, then the new ones), whose histories are kept unchanged. With method 'exact' the i-th new particle starts at the (i mod m)-th of the m listed locations; with 'random' each new row and column is drawn from the respective list; inputs of the wrong type raise TypeError, an unknown method or an unavailable tracked variable raises ValueError, and either leaves existing particles alone.",
 ["inputs", "histories"], "all N, location lists, seed times, prior histories",
 "Tests try N of 1 to 3 with one list.",
 [PT], [("Particles.generate_particles", PT), ("gen_input_check", PT), ("random_pick_seed", LW)], [("walk_data", "per-particle histories", PT)], ["walk_data after generate_particles"])

prop("C12", "Tracked variables and ROI flags match the grid at the recorded cell",
 "For every tracked grid variable, the value recorded with a particle's entry, at seeding and at every later step, is the value of that variable's grid in the very cell recorded in that entry; the ROI flag is 1 exactly when the ROI grid is 1 there and 0 otherwise. Providing an ROI grid is enough for the flag to be tracked, and tracking a name that is not available is rejected.",
 ["inputs", "histories"], "all grids, all positions, all subsets of tracked variables",
 "Tests only check that the keys exist.",
 [PT, LW], [("particle_stepper optional variables", LW), ("Particles.generate_particles", PT), ("Particles.run_iteration", PT)], None, ["walk_data[var]"])

prop("C13", "Index and map coordinates convert back and forth without loss",
 "For every raster geometry with positive cell size, index pair (i, j) maps to x = x0 + j*cellsize and y = y0 + (rows - i)*cellsize, and converting those coordinates back gives (i, j) again. Any coordinate pair maps to an index pair whose own coordinates differ from it by at most half a cell in x and in y; lists keep their order and length and other walk data is left unchanged.",
 ["inputs"], "all origins, sizes, positive cell sizes, coordinates and histories",
 "Tests check a single pair in each direction and never the composition.",
 [PT], [("coord2ind", PT), ("ind2coord", PT)], None, ["return values"])

prop("C14", "Exposure time is the time-weighted overlap with the region",
 "For every walk history and binary region, a particle's exposure time is the sum over its steps of the step duration times the average of the region flag at the two ends (whole, half or nothing), listed in particle order. Hence for time-ordered histories it lies between 0 and the particle's total travel time, and exposures to a region and to its complement add up to that total; the histories are not modified.",
 ["inputs", "histories"], "all histories of any length and any number of particles, all binary regions",
 "Three hand-made tracks are tested; two of the tests shadow each other.",
 [PT], [("exposure_time", PT)], None, ["return value of exposure_time"])

prop("C15", "Nourishment area is the normalised visit count of every cell",
 "With no smoothing the result is NaN exactly in the cells no particle ever visited (or when the clip percentile is 0), every other value lies in (0, 1], cells visited more often never score lower, and with clip=100 each value is that cell's total number of visits divided by the maximum over all cells. Every recorded entry of every particle counts exactly once; with or without smoothing all non-NaN values lie in [0, 1] and the output has the raster shape.",
 ["inputs", "histories"], "all histories and raster sizes",
 "Tests use one particle with a handful of cells.",
 [PT], [("nourishment_area", PT)], None, ["return value of nourishment_area"])

prop("C16", "Nourishment time is the mean residence time per visit",
 "With no smoothing and clip=100 the value of every cell is the average, over all intermediate visits (not the first or last entry of a history) of all particles to that cell, of half the duration of the step into it plus half the duration of the step out of it, and NaN where that is zero or there was no such visit. Clipping only caps values at the requested percentile, and histories are not modified.",
 ["inputs", "histories"], "all histories and raster sizes",
 "Tests use one particle with a handful of cells.",
 [PT], [("nourishment_time", PT)], None, ["return value of nourishment_time"])

prop("C17", "State queries return each particle's entry at the asked step or time",
 "Querying by iteration returns, for every particle in order, its recorded row, column, travel time and every tracked variable at that iteration (counted from the end when negative), or at its last entry when its history is shorter. Querying by time returns the entry whose travel time is nearest to the target (the earliest one on ties), all fields from that same entry; neither query changes the walk data.",
 ["inputs", "histories"], "all aligned histories of any lengths, any iteration number, any target time, any tracked variables",
 "Only incidental uses through plots are tested.",
 [RT], [("get_state", RT), ("get_time_state", RT)], None, ["return values"])

prop("C18", "Flux-proportional seeding hands out exactly the requested total",
 "For every discharge series with a nonzero total and every non-negative particle total, the counts are non-negative integers, one per time step, that sum exactly to the total, and each differs from its proportional share (absolute discharge over total absolute discharge, times the total) by less than one particle. The steps that receive an extra particle are those with the largest fractional shares; a series that is too short or all zero is rejected with ValueError.",
 ["inputs"], "all discharge series (signs included), totals and lengths",
 "One series of ten values is tested.",
 [PT], [("flux_proportional_seeding", PT)], None, ["return value of flux_proportional_seeding"])

prop("C19", "Gridding interpolates within the data and respects the boundary",
 "Every gridded value is the inverse-distance-weighted mean of the k nearest input values (the nearest value itself for k=1), hence lies between their minimum and maximum and reproduces constant fields; row 0 is the northernmost row, columns run west to east, spacing is the cell size starting at the minimum coordinates and the grid covers all input points. With a boundary, cells outside it are NaN and inside it are as without one (cropping only removes all-NaN border rows and columns), and the returned function gives the same grid for the same data; lists of unequal length are rejected.",
 ["inputs"], "all point sets, data values, cell sizes, k and boundaries",
 "Tests use 3-4 points and compare a few values.",
 [PT], [("unstruct2grid", PT), ("interp_func closures", PT)], None, ["return values"])

prop("C20", "Parallel runs lose, mix or duplicate nothing",
 "The combined result of a parallel run holds, for every recorded variable, exactly the concatenation in worker order of the per-particle lists the workers produced, so entry i of every variable belongs to the same particle and every particle of every worker appears once. Each worker seeds the requested particles, runs the requested number of iterations, and uses its own stream of random numbers.",
 ["inputs", "configurations"], "any number of workers, particles and variables",
 "One smoke test checks the type of the result.",
 [PR], [("combine_result", PR), ("run_iter", PR), ("parallel_routing", PR)], None, ["return value of combine_result / parallel_routing"])

prop("C21", "Spatial chunks partition the domain and keep their own particles",
 "System-wide and localized exposure produce one entry per chunk in row-major order for the rows//n by cols//n chunk layout (last chunks absorb the remainder): NaN when the chunk holds no region cell, otherwise the exposure times, in particle order, of the particles that start in that chunk, measured against the whole region (system-wide) or only the region cells of that chunk (localized). No particle starting in such a chunk is dropped from it and all of its recorded fields stay together.",
 ["inputs", "histories"], "all rasters, region masks, chunk sizes and histories",
 "One 6x2 raster is tested, for the shape only.",
 [SP], [("systemwide", SP), ("localized", SP), ("_find_common_indices_info", SP)], None, ["return values"])

prop("C22", "Exposure thresholds are ordered and smoothing stays within the data",
 "The smoothing filter (threshold of at least 1) keeps NaN cells NaN, maps every other cell to a value between the minimum and maximum of the non-NaN values in its window (the window being clipped at the raster edge), and leaves constant fields unchanged. The percentile lookup returns the first grid point whose cumulative value reaches the requested level (NaN if none), so before smoothing E50 <= E75 <= E90 in every chunk; chunks that are empty or have fewer than five distinct non-zero exposures are NaN, and each output has the chunk-layout shape in row-major order in units of timedelta.",
 ["inputs"], "all percentile rasters, windows, thresholds and exposure lists",
 "One 3x1 raster is tested, for the shape and sign only.",
 [SP], [("compute_thresholds", SP), ("percentile_from_cdf", SP), ("median_absolute_deviation_filter", SP)], None, ["return values"])

prop("C23", "Logging set-up is idempotent and honours the verbose switch",
 "Setting up logging with a standard level name in any letter case sets the package logger to that level and leaves exactly one handler attached, however often it is called (a handler passed first is the one used); an unknown level raises ValueError and changes nothing. The deprecated verbose switch maps True to INFO and False to ERROR with one DeprecationWarning, and None changes nothing and warns nothing.",
 ["histories", "inputs"], "all call sequences and level names",
 "Tests check three calls in sequence and not the handlers.",
 [LC], [("setup_logging", LC), ("handle_verbose_deprecation", LC)], None, ["logger.level", "logger.handlers"])

prop("C24", "Drivers run the asked iterations and hand back the full history",
 "The plotting drivers call the particle iteration exactly once per requested iteration (per model time step, with target time k*timestep for the k-th, in the unsteady case, each step continuing the previous step's histories), return the history of the last call, and save that same history as JSON when saving is on. They and the exposure-time plots work for any walk data produced by an iteration, with or without tracked variables.",
 ["inputs", "configurations"], "any number of iterations and particles, with and without tracked variables, saving on or off",
 "The only tests of the drivers pass an invalid object and swallow every exception.",
 [RT], [("steady_plots", RT), ("time_plots", RT), ("unsteady_plots", RT), ("plot_exposure_time", RT)], None, ["returned walk_data", "data/data.txt"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
