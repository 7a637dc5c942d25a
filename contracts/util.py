"""shared pieces of the contracts"""
from pyvc.vc import *

# D8 geometry, from the documentation: rows grow southwards, cells numbered 0..8 row by row, 4 is the cell itself
DR = [-1, -1, -1, 0, 0, 0, 1, 1, 1]
DC = [-1, 0, 1, -1, 0, 1, -1, 0, 1]


def FF(x):
    return T.toF(x)


def finite(x):
    """z3: x is a finite number"""
    x = T.toF(x)
    return z3.And(Z(bnot(x.nan)), Z(bnot(x.inf)))


def isnan(x):
    return Z(T.toF(x).nan)


def R(x):
    return T.ZR(T.toF(x).v)


def eqF(x, y):
    """identical extended reals"""
    return Z(T.fident(T.toF(x), T.toF(y)))


def maxof(xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x > m, x, m)
    return m


def hist(vc, extra=(), minlen=1, n=None, pre=''):
    """walk data: n particles with histories of the same positive length in every variable; ints for cells, reals for times"""
    n = vc.int(pre + 'n', 0) if n is None else n
    ln = vc.decl(pre + 'len', 1, z3.IntSort())
    k = z3.Int('k$h')
    T.REG.forall([k], ln(k) >= minlen)
    X, Y = vc.decl(pre + 'X', 2, z3.IntSort()), vc.decl(pre + 'Y', 2, z3.IntSort())
    TT = vc.decl(pre + 'T', 2)
    d = {'xinds': nested(vc, n, ln, X, 'i'), 'yinds': nested(vc, n, ln, Y, 'i'), 'travel_times': nested(vc, n, ln, TT, 'f')}
    E = {}
    for v in extra:
        E[v] = (vc.decl(pre + 'E_' + v, 2), vc.decl(pre + 'E_' + v + '_nan', 2, z3.BoolSort()))
        d[v] = nested(vc, n, ln, E[v], 'n')
    w = vc.I.alloc(vc.st, DVal(d))
    return dict(w=w, n=n, len=ln, X=X, Y=Y, T=TT, E=E, cells=d)


def nested(vc, n, ln, d, kind):
    if kind == 'n':
        return vc.I.alloc(vc.st, LVal(n, fn=lambda i: LVal(ln(Z(i)), fn=lambda j: F(d[0](Z(i), Z(j)), d[1](Z(i), Z(j))))))
    return vc.I.alloc(vc.st, LVal(n, fn=lambda i: LVal(ln(Z(i)), fn=lambda j: F(d(Z(i), Z(j))) if kind == 'f' else d(Z(i), Z(j)))))


def same_hist(vc, s, H, name='walk data unchanged', keys=None):
    """every recorded list is as it was"""
    w = vc.val(s, H['w'])
    i, j = z3.Ints('i$s j$s')
    fn = {'xinds': H['X'], 'yinds': H['Y'], 'travel_times': H['T']}
    fn.update(H['E'])
    vc.flag(name + ': keys', isinstance(w, DVal) and all(k in w.d for k in fn))
    for k, d in fn.items():
        if keys is not None and k not in keys:
            continue
        l = vc.val(s, w.d[k])
        vc.prove('%s: %s particles' % (name, k), s, Z(l.len) == H['n'])
        e = vc.val(s, l.at(i))
        vc.prove('%s: %s lengths' % (name, k), s, Z(e.len) == H['len'](i), [0 <= i, i < H['n']])
        x = e.at(j)
        vc.prove('%s: %s entries' % (name, k), s, entry_eq(x, d, i, j), [0 <= i, i < H['n'], 0 <= j, j < H['len'](i)])


def entry_eq(x, d, i, j):
    """x is entry (i, j) of the history variable d"""
    if isinstance(x, Choice):
        return z3.And(z3.Or(*[Z(c) for c, _ in x.alts]), *[z3.Implies(Z(c), z3.BoolVal(False) if v is None else entry_eq(v, d, i, j)) for c, v in x.alts])
    if isinstance(d, tuple):
        return eqF(x, F(d[0](i, j), d[1](i, j)))
    return num_eq(x, d(i, j))


def num_eq(x, t):
    """number x is finite and equals the z3 term t"""
    if isinstance(x, F):
        return z3.And(finite(x), T.ZR(x.v) == T.ZR(t))
    return T.ZR(x) == T.ZR(t) if isz(t) and z3.is_real(t) else Z(x) == t


def at2(vc, s, l, i, j):
    return vc.val(s, vc.val(s, l).at(i)).at(j)
