"""C11: seeding creates exactly the requested particles where asked."""
from contracts.util import *
from contracts import seeding as SD

ALL = ('count', 'time', 'where', 'frame')
CONTRACTS = ['exact', 'random', 'exact_own', 'random_own', 'exact_prev', 'exact_prev_own', 'random_prev_own', 'random_prev', 'arrays', 'untracked', 'incomplete_prev']


def exact(vc):
    SD.prove_generate(vc, ALL, 'exact')


def random(vc):
    SD.prove_generate(vc, ALL, 'random')


def exact_own(vc):
    SD.prove_generate(vc, ALL, 'exact', own=True)


def random_own(vc):
    SD.prove_generate(vc, ALL, 'random', own=True)


def exact_prev(vc):
    SD.prove_generate(vc, ALL, 'exact', prev=True)


def random_prev(vc):
    SD.prove_generate(vc, ALL, 'random', prev=True)


def exact_prev_own(vc):
    SD.prove_generate(vc, ALL, 'exact', own=True, prev=True)


def random_prev_own(vc):
    SD.prove_generate(vc, ALL, 'random', own=True, prev=True)


def arrays(vc):
    SD.prove_generate(vc, ALL, 'exact', arrays=True)


def untracked(vc):
    SD.prove_generate(vc, ALL, 'exact', own=True, tracked=(), roi=False)


def incomplete_prev(vc):
    """earlier walk data without the tracked variables: padded to the same lengths"""
    SD.prove_generate(vc, ALL, 'exact', prev=True, lack=('depth', 'stage', 'roi_flag'))


WRONG = {
    'count_none': ('TypeError', dict(N=None)),
    'count_text': ('TypeError', dict(N='many')),
    'count_list': ('TypeError', dict(N=lambda vc: vc.I.alloc(vc.st, LVal(None, items=[3])))),
    'rows_number': ('TypeError', dict(X=3)),
    'rows_none': ('TypeError', dict(X=None)),
    'rows_text': ('TypeError', dict(X='ab')),
    'columns_number': ('TypeError', dict(Y=3)),
    'columns_none': ('TypeError', dict(Y=None)),
    'columns_text': ('TypeError', dict(Y='ab')),
    'time_text': ('TypeError', dict(t0='0')),
    'time_none': ('TypeError', dict(t0=None)),
    'method_number': ('TypeError', dict(method=5)),
    'method_none': ('TypeError', dict(method=None)),
    'method_unknown': ('ValueError', dict(method='nearest')),
    'variable_unknown': ('ValueError', dict(track=['depth', 'salinity'])),
}
for _n, (_e, _k) in WRONG.items():
    globals()['rejects_' + _n] = (lambda vc, e=_e, k=_k: SD.prove_rejects(vc, e, **dict(k)))
    CONTRACTS.append('rejects_' + _n)
