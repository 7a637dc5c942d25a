"""C09: target-time iteration stops each particle at the right step."""
from contracts.util import *
from contracts import iteration as IT

CONTRACTS = ['stops', 'stops_silent', 'warns']


def stops(vc):
    IT.prove_target(vc, ('stop',), ('stage',), True)


def stops_silent(vc):
    IT.prove_target(vc, ('stop', 'warn'), (), False, verbose=False)


def warns(vc):
    IT.prove_target(vc, ('warn',), (), False)
