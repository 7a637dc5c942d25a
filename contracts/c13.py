"""C13: index <-> coordinate conversions."""
from contracts.util import *

CONTRACTS = ['coord2ind', 'ind2coord', 'round_trip']


def geom(vc):
    x0, y0 = vc.real('x0'), vc.real('y0')
    L, W = vc.int('L', 1), vc.int('W', 1)
    cs = vc.real('cs', lambda c: c > 0)
    return x0, y0, L, W, cs


def to_ind(vc, st=None, n=None, X=None, Y=None, g=None):
    x0, y0, L, W, cs = g
    l = vc.I.alloc(vc.st, LVal(n, fn=lambda i: (F(X(Z(i))), F(Y(Z(i))))))
    return vc.run('particle_track', 'coord2ind', [l, (F(x0), F(y0)), (L, W), F(cs)])


def coord2ind(vc):
    g = x0, y0, L, W, cs = geom(vc)
    n = vc.int('n', 0)
    X, Y = vc.decl('cx', 1), vc.decl('cy', 1)
    outs = to_ind(vc, n=n, X=X, Y=Y, g=g)
    vc.no_raise(outs)
    i = z3.Int('i')
    a, b = z3.Ints('a b')
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s, [0 <= i, i < n])
        l = vc.val(s, v)
        rng = [0 <= i, i < n]
        vc.prove('one index pair per coordinate', s, Z(l.len) == n)
        e = vc.val(s, l.at(i))
        r, c = (e[0], e[1]) if isinstance(e, tuple) else (e.at(0), e.at(1))
        tx = z3.Real('tx$')
        vc.prove('column is within half a cell', s, z3.And(R(c) * cs - (X(i) - x0) <= cs / 2, (X(i) - x0) - R(c) * cs <= cs / 2), rng)
        vc.prove('row is within half a cell', s, z3.And((L - R(r)) * cs - (Y(i) - y0) <= cs / 2, (Y(i) - y0) - (L - R(r)) * cs <= cs / 2), rng)
        vc.prove('coordinates of (a, b) map back to (a, b)', s, z3.And(Z(r) == a, Z(c) == b),
                 rng + [X(i) == x0 + z3.ToReal(b) * cs, Y(i) == y0 + z3.ToReal(L - a) * cs,
                        (X(i) - x0) / cs == z3.ToReal(b), (Y(i) - y0) / cs == z3.ToReal(L - a)])
        vc.prove('lemma: the quotient of a cell multiple is the index', [cs > 0, X(i) == x0 + z3.ToReal(b) * cs], (X(i) - x0) / cs == z3.ToReal(b))
        vc.prove('lemma: the row quotient of a cell multiple is the index', [cs > 0, Y(i) == y0 + z3.ToReal(L - a) * cs], (Y(i) - y0) / cs == z3.ToReal(L - a))


def ind2coord(vc):
    x0, y0, L, W, cs = geom(vc)
    H = hist(vc, extra=('depth',))
    outs = vc.run('particle_track', 'ind2coord', [H['w'], (F(x0), F(y0)), (L, W), F(cs)])
    vc.no_raise(outs)
    i, j = z3.Ints('i j')
    rng = [0 <= i, i < H['n'], 0 <= j, j < H['len'](i)]
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s, rng)
        w = vc.val(s, v)
        for key, want in (('xcoord', x0 + z3.ToReal(H['Y'](i, j)) * cs), ('ycoord', y0 + z3.ToReal(L - H['X'](i, j)) * cs)):
            vc.flag(key + ' present', key in w.d)
            l = vc.val(s, w.d[key])
            vc.prove(key + ': one list per particle', s, Z(l.len) == H['n'])
            e = vc.val(s, l.at(i))
            vc.prove(key + ': one entry per recorded cell', s, Z(e.len) == H['len'](i), rng[:2])
            vc.prove(key + ': value', s, z3.And(finite(e.at(j)), R(e.at(j)) == want), rng)
        same_hist(vc, s, dict(H, w=v), 'other walk data left unchanged in the result')
        same_hist(vc, s, H, 'other walk data left unchanged')


def round_trip(vc):
    """coord2ind(ind2coord) on one location, composed on the code itself"""
    g = x0, y0, L, W, cs = geom(vc)
    a, b = vc.int('a'), vc.int('b')
    outs = vc.run('particle_track', 'coord2ind', [vc.I.alloc(vc.st, LVal(None, items=[(F(x0 + z3.ToReal(b) * cs), F(y0 + z3.ToReal(L - a) * cs))])),
                                                  (F(x0), F(y0)), (L, W), F(cs)])
    vc.no_raise(outs)
    for _, s, v in vc.returns(outs):
        vc.cover('reachable', s)
        e = vc.val(s, vc.val(s, v).at(0))
        r, c = (e[0], e[1]) if isinstance(e, tuple) else (e.at(0), e.at(1))
        q = [(x0 + z3.ToReal(b) * cs - x0) / cs == z3.ToReal(b), (y0 + z3.ToReal(L - a) * cs - y0) / cs == z3.ToReal(L - a)]
        for z in q:
            vc.prove('lemma: quotient of a multiple', [cs > 0], z)
        vc.prove('back to (a, b)', s, z3.And(Z(r) == a, Z(c) == b), q)
