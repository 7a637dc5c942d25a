"""levels, assumptions and known findings shared by check.py and tools/mkmanifest.py"""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = ['C%02d' % i for i in range(1, 25)]
PROVED = {'C%02d' % i for i in range(1, 19)} | {'C19', 'C20', 'C21', 'C22', 'C23', 'C24'}
LEVEL = {p: 'proof' if p in PROVED else 'exploration' for p in PROPS}
NOT_APPLICABLE = {}
TECHNIQUE = {
    'proof': 'contract-based deductive verification of the current source (pyvc: symbolic VCs per function, z3/cvc5), run-time contracts as a cross-check',
    'exploration': 'contracts on the real code, checked at run time on seeded inputs (bounded stand-in for the deductive check)',
}
TRUSTED = ['z3 4.x / cvc5 1.1.2 refutation', 'pyvc: symbolic semantics of the Python subset and of the numpy calls used (cross-checked by run-time contracts)',
           'CPython ast parser']
ASSUMPTIONS = [
    'floats are extended reals (NaN, +inf, -inf; no rounding, no signed zero); machine integers are mathematical integers',
    'exp/log/power/trigonometric functions are uninterpreted functions with sign, range and monotonicity axioms',
    'random draws are arbitrary values in the documented range of the generator; their distribution is numpy\'s',
    'termination is not verified; warnings, logging and plotting calls are effects without feedback',
]
PRE = {
    'C01': ['grid at least 3x3, default D8 tables, seeds inside the grid', 'run_iteration and particle_stepper are checked against the contracts of get_weight (proved in C01: picks_*) and particle_stepper (proved in C01: stepper), not their bodies',
            'the index grid is int32 in the code: fewer than 2**31 rows and columns', 'random seeding draws inside the listed locations (proved in C05: random_pick_seed)'],
    'C02': ['callers use the contract of particle_stepper (proved in C02: stepper)', 'cell types are integers; grid at least 1x1'],
    'C03': ['fields finite, dry_depth >= 0, 0 <= gamma <= 1, distances > 0', 'numpy.nansum over the nine directions is the sum of the non-NaN values'],
    'C04': ['fields finite, dry_depth >= 0, 0 <= gamma <= 1, distances > 0', 'depth**theta is an uninterpreted power, positive for positive depth, 1 for theta 0'],
    'C05': ['weights are NaN or non-negative (proved in C03)', 'numpy.random.uniform(0, c) yields any value in [0, c); its uniformity is numpy\'s'],
    'C06': ['weights are NaN or non-negative (proved in C03)', 'numpy.random.uniform as in C05'],
    'C07': ['speed at least 1e-8 and finite (proved in C10), |cos| <= 1, random() in [0, 1)', 'cos of a difference is cos of the angle between the directions (uninterpreted, even, range [-1, 1])'],
    'C08': ['diffusion coefficient at most 2 for the time order', 'histories of earlier calls are separate list objects per particle', 'callers use the contracts of particle_stepper and calc_travel_times (proved in C08: stepper, C07)'],
    'C09': ['max_iter >= 1', 'the stepper is represented by its contract (C01, C02, C07)', 'partial correctness: the loop is bounded by max_iter, termination itself is not an obligation'],
    'C10': ['accepted combinations are enumerated; arrays of one shape, entries finite or NaN', 'arctan2, sqrt are uninterpreted with sign and monotonicity axioms', 'the inputs arrays are distinct objects'],
    'C11': ['seed lists non-empty, of equal length for exact', 'wrong types are enumerated: None, text, number for a list, list for a number', 'random.choice-like draws: contract of random_pick_seed (proved in C05)'],
    'C12': ['tracked names are enumerated (none, one, two, all available, unavailable), the ROI grid present or absent', 'callers use the contract of particle_stepper (proved in C12: stepper)'],
    'C13': ['cell size > 0, finite coordinates', 'floats are extended reals: halves are rounded exactly'],
    'C14': ['region of booleans, 0/1 integers or 0/1 floats, histories non-empty and inside the raster', 'time order only for the bounds'],
    'C15': ['histories inside the raster', 'numpy.nanpercentile lies between the smallest and greatest non-NaN value, is the greatest for 100', 'scipy.ndimage.gaussian_filter stays between the minimum and maximum of its input (assumed)'],
    'C16': ['histories inside the raster, travel times non-decreasing', 'numpy.nanpercentile and gaussian_filter as in C15'],
    'C17': ['every particle has at least one entry, travel times finite', 'numpy.argmin is the first smallest position'],
    'C18': ['one-dimensional series of finite discharges', 'numpy.argsort is some permutation that sorts'],
    'C19': ['scipy nearest-neighbour searches return k distinct nearest points, matplotlib Path.contains_points some set of points (assumed)', 'at least one point, 1 <= k <= number of points, cell size > 0, finite data', 'the guard 1e-100 is exact'],
    'C20': ['multiprocessing.Pool.map(f, tasks) is [f(t) for t in tasks] on separate copies (assumed)', 'generate_particles and run_iteration are represented by recorded calls'],
    'C21': ['histories non-empty and starting inside the raster', 'exposure_time is represented by its contract (proved in C14)',
            'known finding: the inclusive upper bound (see known_findings.txt); the obligations are those of the chunk membership the code documents plus the boundary rows and columns of the finding'],
    'C22': ['threshold >= 1, window >= 1', 'gaussian_kde densities are positive and finite on at least two distinct values (assumed)', 'median lies between the smallest and greatest value, cumulative trapezoid sums are non-decreasing'],
    'C23': ['at most one handler attached before the call', 'the standard names DEBUG, INFO, WARNING, ERROR, CRITICAL; the aliases NOTSET, WARN, FATAL are neither required nor forbidden', 'the logging module behaves as documented (modelled)'],
    'C24': ['at least one iteration or model step; equally many field files of each kind', 'plotting calls neither raise nor touch their arguments (assumed)', 'get_state is represented by its contract (proved in C17), run_iteration by recorded calls that return fresh histories', 'files named in any order by os.listdir'],
}
BOUNDED = {}


def note(p):
    if LEVEL[p] == 'proof':
        s = 'Every obligation generated from the current source of the functions under contract is discharged for all inputs; '
        if p in BOUNDED:
            s += 'bounded parts: ' + '; '.join(BOUNDED[p]) + '; '
        return s + 'floats are extended reals, library calls follow the models of pyvc (see DESIGN.md).'
    return 'Bounded: the contract is evaluated at run time on seeded generated inputs; nothing is proved for other inputs.'


def known_findings(here):
    out = {}
    p = os.path.join(here, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property='):
                rest = l[len('KNOWN-FINDING: property='):]
                prop, rest = rest.split(' ', 1)
                key, txt = rest.split(' | ', 1)
                out[(prop, key)] = key + ' | ' + txt
    return out
