"""C08: walk histories stay aligned, append-only and time-ordered."""
from contracts.util import *
from contracts import stepper as SP
from contracts import iteration as IT
from contracts import seeding as SD

CONTRACTS = ['stepper', 'run_iteration', 'run_iteration_untracked', 'seed_exact', 'seed_random', 'seed_incomplete', 'seed_own_incomplete', 'run_iteration_target', 'run_iteration_target_untracked']


def stepper(vc):
    SP.prove_stepper(vc, ('time', 'frame'))


def run_iteration(vc):
    IT.prove_plain(vc, ('append',))


def run_iteration_untracked(vc):
    IT.prove_plain(vc, ('append',), (), False)


def seed_exact(vc):
    SD.prove_generate(vc, ('frame',), 'exact', own=True, prev=True)


def seed_random(vc):
    SD.prove_generate(vc, ('frame',), 'random', own=True, prev=True)


def seed_incomplete(vc):
    SD.prove_generate(vc, ('frame',), 'exact', prev=True, lack=('depth', 'roi_flag'))


def seed_own_incomplete(vc):
    SD.prove_generate(vc, ('frame',), 'exact', own=True, prev=True, lackown=('depth', 'roi_flag'))


def run_iteration_target(vc):
    IT.prove_target(vc, ('append',), ('stage',), False)


def run_iteration_target_untracked(vc):
    IT.prove_target(vc, ('append',), (), False)
