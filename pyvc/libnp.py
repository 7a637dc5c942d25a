"""Models of numpy arrays and functions (assumed contracts of an external library)."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import F, Unsupported, isz, band, bor, bnot, imp, ite, fite, beq, ieq, ilt, ile, iadd, isub, imul, toF, Z, NAN
from .values import *
from . import values as V

R, IS, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_powv = z3.Function('pow', R, R, R)
_pown = z3.Function('pow_nan', R, R, B)
_sqrt = z3.Function('sqrt', R, R)
_cos = z3.Function('cos', R, R)
_sin = z3.Function('sin', R, R)
_atan2 = z3.Function('atan2', R, R, R)
_round = z3.Function('round', R, IS)
_floor = z3.Function('floor', R, IS)
_idiv = z3.Function('idiv', IS, IS, IS)
_imod = z3.Function('imod', IS, IS, IS)
_flat = z3.Function('flatidx', IS, IS, IS, IS)     # (row, col, width)
_frow = z3.Function('flatrow', IS, IS, IS)         # (p, width)
_fcol = z3.Function('flatcol', IS, IS, IS)
PI = z3.Real('pi')


def whole(v):
    """integer term equal to the real term v, where v is syntactically whole"""
    if z3.is_rational_value(v):
        return z3.IntVal(v.numerator_as_long()) if v.denominator_as_long() == 1 else None
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    k = v.decl().kind() if z3.is_app(v) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ks = [whole(c) for c in v.children()]
        if any(c is None for c in ks):
            return None
        r = ks[0]
        if k == z3.Z3_OP_UMINUS:
            return z3.simplify(-r)
        for c in ks[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
        return z3.simplify(r)
    return None


def install_axioms():
    A = T.REG.ax
    RV = z3.RealVal
    A['pow'] = [lambda x, y: [z3.Implies(y == 0, _powv(x, y) == 1), z3.Implies(y == 1, _powv(x, y) == x),
                              z3.Implies(x > 0, _powv(x, y) > 0), z3.Implies(z3.And(x == 0, y > 0), _powv(x, y) == 0)]]
    A['sqrt'] = [lambda x: [z3.Implies(x >= 0, z3.And(_sqrt(x) >= 0, _sqrt(x) * _sqrt(x) == x)),
                            z3.Implies(x > 0, _sqrt(x) > 0)]]
    A['cos'] = [lambda x: [_cos(x) <= 1, _cos(x) >= -1, z3.Implies(x == 0, _cos(x) == 1)]]
    A['sin'] = [lambda x: [_sin(x) <= 1, _sin(x) >= -1, z3.Implies(x == 0, _sin(x) == 0)]]
    A['atan2'] = [lambda y, x: [_atan2(y, x) <= PI, _atan2(y, x) >= -PI]]
    A['round'] = [lambda x: [2 * (x - _round(x)) <= 1, 2 * (x - _round(x)) >= -1,
                             z3.Implies(z3.Or(2 * (x - _round(x)) == 1, 2 * (x - _round(x)) == -1), _round(x) % 2 == 0)]]
    A['floor'] = [lambda x: [z3.ToReal(_floor(x)) <= x, x < z3.ToReal(_floor(x)) + 1]]
    A['idiv'] = [lambda x, y: [z3.Implies(y > 0, z3.And(x == y * _idiv(x, y) + _imod(x, y), 0 <= _imod(x, y), _imod(x, y) < y)),
                               z3.Implies(z3.And(y > 0, x >= 0), z3.And(_idiv(x, y) >= 0, _idiv(x, y) <= x))]]
    A['imod'] = [lambda x, y: [z3.Implies(y > 0, z3.And(x == y * _idiv(x, y) + _imod(x, y), 0 <= _imod(x, y), _imod(x, y) < y)),
                               z3.Implies(z3.And(0 <= x, x < y), _imod(x, y) == x)]]
    A['flatidx'] = [lambda r, c, w: [z3.Implies(z3.And(0 <= c, c < w, 0 <= r),
                                                z3.And(_frow(_flat(r, c, w), w) == r, _fcol(_flat(r, c, w), w) == c, _flat(r, c, w) >= 0))]]
    A['flatrow'] = [lambda p, w: [z3.Implies(z3.And(w > 0, p >= 0), z3.And(_frow(p, w) >= 0, 0 <= _fcol(p, w), _fcol(p, w) < w,
                                                                        _flat(_frow(p, w), _fcol(p, w), w) == p))]]
    A['flatcol'] = A['flatrow']
    A['pi'] = [lambda: [PI > RV('3141/1000'), PI < RV('3142/1000')]]


def fcos(x):
    if x.fin() and not isz(x.v) and x.v == 0:
        return F(Fraction(1))
    return F(_cos(T.ZR(x.v)), bor(x.nan, x.inf))


def fsqrt(x):
    if x.fin() and not isz(x.v):
        for c in (0, 1, 4, 9, 16, 25):
            if x.v == c:
                return F(Fraction({0: 0, 1: 1, 4: 2, 9: 3, 16: 4, 25: 5}[c]))
    return F(ite(x.inf, Fraction(1), _sqrt(T.ZR(x.v))), bor(x.nan, T.rlt(x.v, Fraction(0))), band(x.inf, bnot(T.rlt(x.v, 0))))


_ALW = {}


def _always(f):
    """valid without any hypothesis"""
    if not isz(f):
        return f is True
    i = f.get_id()
    if i not in _ALW:
        sv = z3.Solver()
        sv.set('timeout', 1000)
        sv.add(z3.Not(f))
        _ALW[i] = (f, sv.check() == z3.unsat)
    return _ALW[i][1]


class KD:
    """scipy spatial index over points"""
    __slots__ = ('pts', 'vals', 'kind')

    def __init__(self, pts, vals=None, kind='kd'):
        self.pts, self.vals, self.kind = pts, vals, kind


class NP:
    def __init__(self, lib):
        self.lib = lib
        self.I = lib.I
        install_axioms()

    def pi(self):
        return F(PI)

    # ------------------------------------------------------------ integers
    def mulname(self, a, b):
        return imul(a, b)

    def idiv(self, st, x, y):
        if not isz(x) and not isz(y):
            return x // y if y != 0 else 0
        if not isz(y) and y == 1:
            return x
        if not isz(y) and y > 0:
            return T.isimp(Z(x) / y)
        return _idiv(Z(x), Z(y))

    def imod(self, x, y):
        if not isz(x) and not isz(y):
            return x % y if y != 0 else 0
        if not isz(y) and y == 1:
            return 0
        if not isz(y) and y > 0:
            return T.isimp(Z(x) % y)
        return _imod(Z(x), Z(y))

    # ------------------------------------------------------------ scalars
    def power(self, x, y):
        if y.fin() and not isz(y.v):
            e = y.v
            if e.denominator == 1 and 0 <= e <= 6:
                r = F(Fraction(1))
                for _ in range(int(e)):
                    r = T.fmul(r, x) if r.fin() is False or isz(r.v) or r.v != 1 else x
                return r
            if e == Fraction(1, 2):
                return fsqrt(x)
            if e.denominator == 1 and -6 <= e < 0:
                return T.fdiv(F(Fraction(1)), self.power(x, F(-e)))
        v, w = T.ZR(x.v), T.ZR(y.v)
        yz = T.req(y.v, Fraction(0))
        nan = bor(band(x.nan, bnot(yz)), y.nan, band(T.rlt(x.v, 0), bnot(x.nan), _pown(v, w)))
        inf = bor(band(T.req(x.v, Fraction(0)), T.rlt(y.v, Fraction(0))), x.inf, y.inf)
        if x.inf is not False or y.inf is not False:
            raise Unsupported('power of an infinite value')
        return F(_powv(v, w), nan, band(bnot(nan), inf))

    def ffloor(self, x):
        return F(z3.ToReal(Z(self.floor_int(x.v))), x.nan, x.inf) if isz(x.v) else F(Fraction(x.v.__floor__()), x.nan, x.inf)

    def floor_int(self, v):
        if not isz(v):
            return Fraction(v).__floor__()
        k = whole(v)
        if k is not None:
            return k
        return _floor(v)

    def ceil_int(self, v):
        return isub(0, self.floor_int(T.rneg(v) if not isz(v) else z3.simplify(-v)))

    def trunc_int(self, v):
        if not isz(v):
            return int(v)
        k = whole(v)
        if k is not None:
            return k
        return ite(T.rle(Fraction(0), v), self.floor_int(v), self.ceil_int(v))

    def round_int(self, v):
        if not isz(v):
            return round(Fraction(v))
        k = whole(v)
        if k is not None:
            return k
        return _round(v)

    # ------------------------------------------------------------ shapes
    def bshape(self, st, s1, s2):
        I = self.I
        n = max(len(s1), len(s2))
        a = (1,) * (n - len(s1)) + tuple(s1)
        b = (1,) * (n - len(s2)) + tuple(s2)
        out = []
        for x, y in zip(a, b):
            if T.same(x, y):
                out.append(x)
            elif not isz(x) and x == 1:
                out.append(y)
            elif not isz(y) and y == 1:
                out.append(x)
            else:
                I.require(st, ieq(x, y), 'ValueError', 'broadcast')
                out.append(x if isz(y) else y)
        return tuple(out)

    def bget(self, a, idx, shape):
        """element of a broadcast to shape"""
        off = len(shape) - len(a.shape)
        ii = []
        for q, d in enumerate(a.shape):
            i = idx[off + q]
            ii.append(0 if (not isz(d) and d == 1) and not (not isz(shape[off + q]) and shape[off + q] == 1 and not isz(i)) else i)
        return a.get(tuple(ii))

    def bcast_to(self, st, a, shape):
        a = AVal(a.shape[len(a.shape) - len(shape):], a.kind, lambda idx, a=a, k=len(a.shape) - len(shape): a.get((0,) * k + tuple(idx))) \
            if len(a.shape) > len(shape) and all(not isz(d) and d == 1 for d in a.shape[:len(a.shape) - len(shape)]) else a
        r = self.bshape(st, a.shape, shape)
        if len(r) != len(shape):
            from .interp import PyRaise
            raise PyRaise('ValueError', 'broadcast')
        for x, y in zip(r, shape):
            self.I.require(st, ieq(x, y), 'ValueError', 'broadcast')
        return AVal(shape, a.kind, lambda idx: self.bget(a, idx, shape))

    def kind1(self, x):
        return x.kind if isinstance(x, (AVal, Comp)) else V.kind_of(x)

    def elementwise(self, st, f, kindfn, *xs):
        I = self.I
        xs = [I.content(st, x) for x in xs]
        kind = kindfn(*[self.kind1(x) for x in xs])
        cs = [x for x in xs if isinstance(x, Comp)]
        if cs:
            for c in cs[1:]:
                if c.mask is not cs[0].mask and not self.lib.same_mask(st, c.mask, cs[0].mask):
                    raise Unsupported('operation on differently masked values')
            for x in xs:
                if isinstance(x, AVal) and x.shape:
                    raise Unsupported('masked value with array')

            def getc(idx):
                return f(*[x.get(idx) if isinstance(x, Comp) else x for x in xs])
            return I.alloc(st, Comp(cs[0].mask, getc, kind))
        shape = ()
        for x in xs:
            if isinstance(x, AVal):
                shape = self.bshape(st, shape, x.shape)

        def get(idx):
            return f(*[self.bget(x, idx, shape) if isinstance(x, AVal) else x for x in xs])
        return I.alloc(st, AVal(shape, kind, get))

    def emap(self, st, f, kindfn, *xs):
        """elementwise on arrays, plain on scalars"""
        I = self.I
        cs = [I.content(st, x) for x in xs]
        cs = [self.lib.list_to_array(st, c) if isinstance(c, LVal) else c for c in cs]
        if any(isinstance(c, Opaque) for c in cs):
            return Opaque('np')
        if any(isinstance(c, (AVal, Comp)) for c in cs):
            return self.elementwise(st, f, kindfn, *cs)
        for c in cs:
            if not is_num(c):
                from .interp import PyRaise
                raise PyRaise('TypeError', 'numeric argument')
        return f(*cs)

    # ------------------------------------------------------------ construction
    def dtype_kind(self, dt):
        if dt is None:
            return None
        if isinstance(dt, str):
            n = dt
        elif isinstance(dt, Builtin):
            n = dt.name.split('.')[-1]
        elif isinstance(dt, Opaque) and dt.tag.startswith('dtype:') and dt.tag[6:] in ('i', 'f', 'b'):
            return dt.tag[6:]
        else:
            raise Unsupported('dtype %r' % (dt,))
        # integers of at least 32 bits hold every index and count of the histories here; shorter ones wrap around, and single precision
        # does not keep the values: no model
        if n in ('int', 'int_', 'int32', 'int64', 'i', 'i4', 'i8', 'intp', 'long', 'l'):
            return 'i'
        if n in ('float', 'float_', 'float64', 'f8', 'd', 'double'):
            return 'f'
        if n in ('bool', 'bool_', '?'):
            return 'b'
        if n == 'object':
            return 'o'
        raise Unsupported('dtype ' + n)

    def cast(self, kind, x):
        if kind is None:
            return x
        if kind == 'i' and isinstance(x, F):
            return self.trunc_int(x.v)
        if kind == 'b' and not is_boolv(x):
            return bnot(ieq(as_int(x), 0)) if is_intv(x) else bnot(T.feq(toF(x), toF(0)))
        return V.kcast(kind, x) if kind in 'fi' else x

    def shape_arg(self, st, s):
        c = self.I.content(st, s)
        if isinstance(c, LVal):
            if c.items is None:
                raise Unsupported('symbolic shape')
            c = tuple(c.items)
        if not isinstance(c, tuple):
            c = (c,)
        return tuple(as_int(self.I.force(x, st)) for x in c)

    def filled(self, st, shape, v, kind):
        for d in shape:
            self.I.require(st, ile(0, d), 'ValueError', 'negative dimensions')
        return self.I.alloc(st, AVal(shape, kind, lambda idx: v))

    def array(self, st, x, dt=None):
        """np.array"""
        I = self.I
        kind = self.dtype_kind(dt)
        c = I.content(st, x)
        if isinstance(c, AVal):
            if kind is None or kind == c.kind:
                return I.alloc(st, AVal(c.shape, c.kind, c.get, c.inv, c.note))
            return I.alloc(st, AVal(c.shape, kind, lambda idx: self.cast(kind, c.get(idx))))
        if is_num(c):
            return I.alloc(st, AVal((), kind or V.kind_of(c), lambda idx: self.cast(kind, c)))
        if isinstance(c, Opaque):
            return Opaque('array')
        if isinstance(c, IterV):
            return self.array(st, self.lib.call_builtin(st, 'list', [x], {}), dt)
        shape, k, get = self.nested(st, c)
        kk = kind or k
        return I.alloc(st, AVal(shape, kk, (lambda idx: self.cast(kk, get(idx))) if kk != 'o' else get))

    def nested(self, st, c):
        """(shape, kind, get) of a nested sequence"""
        I = self.I
        from .interp import PyRaise
        if isinstance(c, (Ref, AView, Path, Choice)):
            c = I.content(st, c)
        if is_num(c):
            return (), V.kind_of(c), lambda idx: c
        if isinstance(c, AVal):
            return c.shape, c.kind, c.get
        if isinstance(c, IterV):
            if isz(c.len):
                raise Unsupported('array of iterator')
            c = tuple(c.fn(i, st) for i in range(c.len))
        if isinstance(c, tuple):
            items = list(c)
        elif isinstance(c, LVal):
            items = c.items
        elif isinstance(c, (OV,)) or c is None:
            return (), 'o', lambda idx: c
        else:
            raise PyRaise('TypeError', 'array of %r' % (c,))
        if items is not None:
            if not items:
                return (0,), 'f', lambda idx: toF(0)
            subs = [self.nested(st, x) for x in items]
            kind = subs[0][1]
            for s in subs[1:]:
                kind = V.join_kind(kind, s[1])
                if len(s[0]) != len(subs[0][0]):
                    raise PyRaise('ValueError', 'inhomogeneous')
                for a, b in zip(s[0], subs[0][0]):
                    I.require(st, ieq(a, b), 'ValueError', 'inhomogeneous')
            n = len(items)

            def get(idx):
                i = idx[0]
                if not isz(i):
                    return self.cast(kind, subs[i][2](idx[1:])) if 0 <= i < n else self.cast(kind, subs[0][2](idx[1:]))
                r = self.cast(kind, subs[-1][2](idx[1:]))
                for q in range(n - 2, -1, -1):
                    r = vite(ieq(i, q), self.cast(kind, subs[q][2](idx[1:])), r)
                return r
            return (n,) + tuple(subs[0][0]), kind, get
        q = T.bound_int('q')
        e = c.at(q)
        shp, kind, _ = self.nested(st, e)
        for d in shp:
            if T.mentions(Z(d), q):
                raise Unsupported('ragged array')

        def getn(idx):
            _, _, g = self.nested(st, c.at(idx[0]))
            return self.cast(kind, g(idx[1:]))
        return (c.len,) + tuple(shp), kind, getn

    # ------------------------------------------------------------ rearrangement
    def transpose(self, st, c):
        if len(c.shape) == 1:
            return self.I.alloc(st, c)
        return self.I.alloc(st, AVal(tuple(reversed(c.shape)), c.kind, lambda idx: c.get(tuple(reversed(idx)))))

    def flatpos(self, p, shape):
        """multi-index of flat position p"""
        if len(shape) == 1:
            return (p,)
        if len(shape) == 2 and (isz(shape[1]) or isz(p)):
            w = shape[1]
            if isz(p) and z3.is_app(p) and p.decl().name() == 'flatidx' and T.same(T.fold(p.arg(2)), w):
                return (T.fold(p.arg(0)), T.fold(p.arg(1)))
            if not isz(w) and isz(p):
                return (T.isimp(p / w), T.isimp(p % w))
            return (_frow(Z(p), Z(w)), _fcol(Z(p), Z(w)))
        if any(isz(d) for d in shape[1:]):
            raise Unsupported('flatten of a symbolic shape')
        out = []
        for d in reversed(shape[1:]):
            out.append(p % d if not isz(p) else T.isimp(p % d))
            p = p // d if not isz(p) else T.isimp(p / d)
        out.append(p)
        return tuple(reversed(out))

    def total(self, shape):
        n = 1
        for d in shape:
            n = imul(n, d)
        return n

    def ravel(self, st, c):
        if len(c.shape) == 1:
            return self.I.alloc(st, c)
        if not c.shape:
            return self.I.alloc(st, AVal((1,), c.kind, lambda idx: c.get(())))
        return self.I.alloc(st, AVal((self.total(c.shape),), c.kind, lambda idx: c.get(self.flatpos(idx[0], c.shape)), note=('ravel', c)))

    def reshape_val(self, st, c, v):
        shape = list(self.shape_arg(st, v))
        if any(not isz(d) and d == -1 for d in shape):
            p = [q for q, d in enumerate(shape) if not isz(d) and d == -1][0]
            if len(shape) == 1:
                return self.I.content(st, self.ravel(st, c))
            rest = self.total([d for q, d in enumerate(shape) if q != p])
            shape[p] = self.idiv(st, self.total(c.shape), rest)
        self.I.require(st, ieq(self.total(shape), self.total(c.shape)), 'ValueError', 'reshape')
        src = self.I.content(st, self.ravel(st, c))
        if len(shape) == 1:
            return src
        if len(shape) == 2:
            w = shape[1]

            def get(idx):
                if not isz(idx[0]) and not isz(idx[1]) and not isz(w):
                    return src.get((idx[0] * w + idx[1],))
                if not isz(w):
                    return src.get((iadd(imul(idx[0], w), idx[1]),))
                return src.get((_flat(Z(idx[0]), Z(idx[1]), Z(w)),))
            return AVal(tuple(shape), c.kind, get)
        raise Unsupported('reshape')

    def ix_get(self, st, c, k):
        cs = []
        for m in k.masks:
            cs.append(self.lib.sel(m) if isinstance(m, AVal) and m.kind == 'b' else (m.shape[0], lambda p, m=m: m.get((p,))))
        return self.I.alloc(st, AVal((cs[0][0], cs[1][0]), c.kind, lambda idx: c.get((cs[0][1](idx[0]), cs[1][1](idx[1]))), note=('ix', c, k)))

    # ------------------------------------------------------------ reductions
    def axes(self, st, c, axis):
        nd = len(c.shape)
        if axis is None:
            return list(range(nd))
        if isinstance(axis, tuple):
            return sorted(a % nd for a in axis)
        if isz(axis):
            raise Unsupported('symbolic axis')
        return [axis % nd]

    def fold(self, st, c, axis, f, sym):
        """reduction over axes: f(list of values) when the axes are concrete and small, else sym(dims, element function)"""
        I = self.I
        ax = self.axes(st, c, axis)
        keep = [q for q in range(len(c.shape)) if q not in ax]
        dims = [c.shape[a] for a in ax]

        def at(idx):
            def elem(red):
                full = [None] * len(c.shape)
                for q, i in zip(keep, idx):
                    full[q] = i
                for a, i in zip(ax, red):
                    full[a] = i
                return c.get(tuple(full))
            if all(not isz(d) for d in dims) and self.total(dims) <= 40:
                import itertools
                return f([elem(r) for r in itertools.product(*[range(d) for d in dims])])
            return sym(dims, elem)
        if not keep:
            return at(())
        return at, tuple(c.shape[q] for q in keep)

    def reduce(self, st, c, axis, f, sym, kind):
        r = self.fold(st, c, axis, f, sym)
        if isinstance(r, tuple):
            at, shape = r
            return self.I.alloc(st, AVal(shape, kind, at))
        return r

    def sum(self, st, c, axis=None, nan=False):
        k = 'i' if c.kind in 'ib' else 'f'

        def f(vs):
            if k == 'i':
                r = 0
                for v in vs:
                    r = iadd(r, as_int(v))
                return r
            r = toF(0)
            for v in vs:
                v = toF(v)
                if nan:
                    v = fite(v.nan, toF(0), v) if v.nan is not False else v
                r = T.fadd(r, v)
            return r

        def sym(dims, elem):
            qs = [T.bound_int('s') for _ in dims]
            v = elem(tuple(qs))
            if k == 'i':
                if is_boolv(v):
                    t = None
                    for d, q in reversed(list(zip(dims, qs))):
                        t = T.mk_count(d, q, v) if t is None else T.mk_sum(d, q, t, 'int')
                    return t
                t = as_int(v)
                for d, q in reversed(list(zip(dims, qs))):
                    t = T.mk_sum(d, q, t, 'int')
                return t
            v = toF(v)
            if nan and v.nan is not False:
                v = fite(v.nan, toF(0), v)
            if v.inf is not False:
                raise Unsupported('sum of possibly infinite values')
            t, nn = v.v, v.nan
            for d, q in reversed(list(zip(dims, qs))):
                t = T.mk_sum(d, q, t)
                nn = ilt(0, T.mk_count(d, q, nn)) if nn is not False else False
            return F(t, nn)
        return self.reduce(st, c, axis, f, sym, k)

    def quant(self, st, c, axis, isany):
        tr = lambda v: v if is_boolv(v) else (bnot(ieq(as_int(v), 0)) if is_intv(v) else bnot(T.feq(toF(v), toF(0))))

        def f(vs):
            return bor(*[tr(v) for v in vs]) if isany else band(*[tr(v) for v in vs])

        def sym(dims, elem):
            return self.exists(st, dims, elem, tr) if isany else bnot(self.exists(st, dims, elem, lambda v: bnot(tr(v))))
        return self.reduce(st, c, axis, f, sym, 'b')

    def exists(self, st, dims, elem, pred):
        """some cell satisfies pred"""
        import itertools
        bounds = []
        for d in dims:
            b = d if not isz(d) else None
            if b is None:
                for m in (1, 2, 3, 4, 5):
                    if self.I.decide(st, ile(d, m)) is True or _always(ile(d, m)):
                        b = m
                        break
            bounds.append(b)
        tot = 1
        for b in bounds:
            tot = tot * b if b is not None and tot is not None else None
        if tot is not None and tot <= 40:
            out = []
            for r in itertools.product(*[range(b) for b in bounds]):
                inr = band(*[ilt(i, d) for i, d in zip(r, dims)])
                out.append(band(inr, pred(elem(r))))
            return bor(*out)
        qs = [T.bound_int('x') for _ in dims]
        t = pred(elem(tuple(qs)))
        for d, q in reversed(list(zip(dims, qs))):
            t = ilt(0, T.mk_count(d, q, t))
        return t

    def any_cell(self, st, c, pred):
        return self.exists(st, list(c.shape), c.get, pred)

    def extremum(self, st, c, axis, ismax, nan=False, what='array'):
        I = self.I

        def f(vs):
            if not vs:
                from .interp import PyRaise
                raise PyRaise('ValueError', 'empty extremum')
            r = vs[0]
            for v in vs[1:]:
                r = self.pair(r, v, ismax, nan)
            return r

        def sym(dims, elem):
            return self.ext_sym(st, dims, elem, ismax, nan)
        if axis is None:
            for d in c.shape:
                I.require(st, ilt(0, d), 'ValueError', 'empty extremum')
        return self.reduce(st, c, axis, f, sym, c.kind)

    def pair(self, a, b, ismax, nan):
        """numpy maximum/minimum (nan propagating) or fmax/fmin"""
        if not isinstance(a, F) and not isinstance(b, F):
            a, b = as_int(a), as_int(b)
            c = ile(a, b) if ismax else ile(b, a)
            return ite(c, b, a)
        a, b = toF(a), toF(b)
        lt = T.flt(F(a.v, False, a.inf), F(b.v, False, b.inf))
        gt = T.flt(F(b.v, False, b.inf), F(a.v, False, a.inf))
        r = fite(lt if ismax else gt, F(b.v, False, b.inf), F(a.v, False, a.inf))
        if nan:
            r = fite(a.nan, F(b.v, False, b.inf), fite(b.nan, F(a.v, False, a.inf), r))
            return F(r.v, band(a.nan, b.nan), r.inf)
        return F(r.v, bor(a.nan, b.nan), r.inf)

    def ext_sym(self, st, dims, elem, ismax, nan):
        """extremum over symbolic dimensions: attained at a witness and a bound of every cell"""
        qs = [T.bound_int('e') for _ in dims]
        v = elem(tuple(qs))
        isint = not isinstance(v, F)
        if isint:
            v = as_int(v)
            vv, vn = v, False
        else:
            vv, vn = v.v, v.nan
            if v.inf is not False:
                raise Unsupported('extremum of possibly infinite values')
        zb = Z(vv) if isint else T.ZR(vv)
        key = ('ext', ismax, nan, zb.get_id(), Z(vn).get_id(), tuple(q.get_id() for q in qs))
        fc = set()
        for t in [zb, Z(vn)] + [Z(d) for d in dims]:
            fc |= set(T.free_consts(t))
        params = sorted([x for x in fc if T.is_bound(x) and not any(x.eq(q) for q in qs)], key=lambda x: x.get_id())
        # reuse up to renaming of the index variables
        fam = T.REG.keyed.setdefault('ext-family', [])
        for (im, nn, q2, zb2, vn2, d2, p2, res, nm, install) in fam:
            if im == ismax and nn == nan and len(q2) == len(qs) and len(p2) == len(params) and all(a.eq(b) for a, b in zip(p2, params)) \
                    and all(T.same(a, b) for a, b in zip(d2, dims)):
                pr = list(zip(q2, qs))
                if Z(T.subst(zb2, pr)).eq(zb) and Z(T.subst(vn2, pr)).eq(Z(vn)):
                    if 'installed:' + nm not in T.REG.ax:
                        install()       # a discarded trial run of a loop had taken its axioms along
                    return res
        nm = T.REG.fresh('Max' if ismax else 'Min')
        so = IS if isint else R
        D = z3.Function(nm, *([IS] * len(params) + [so])) if params else None
        m = D(*params) if params else z3.Const(nm, so)
        ws = []
        for _ in dims:
            wn = T.REG.fresh('w')
            ws.append(z3.Function(wn, *([IS] * len(params) + [IS]))(*params) if params else z3.Const(wn, IS))
        def install():
            T.REG.ax['installed:' + nm] = []
            nonempty = band(*[ilt(0, d) for d in dims])
            inr = band(*[band(ile(0, q), ilt(q, d)) for q, d in zip(qs, dims)])
            pr = list(zip(qs, ws))
            wv, wn_ = T.subst(zb, pr), T.subst(Z(vn), pr)
            attained = band(*[band(ile(0, w), ilt(w, d)) for w, d in zip(ws, dims)])
            if nan and vn is not False:
                sn = nm + 'some'        # some element is not NaN: its own symbol, defined by the two axioms below
                some = z3.Function(sn, *([IS] * len(params) + [z3.BoolSort()]))(*params) if params else z3.Bool(sn)
                T.REG.forall(params + qs, imp(band(inr, bnot(vn)), some))
            else:
                some = nonempty
            zm = m
            att = imp(some, band(attained, bnot(T.fold(wn_)) if nan else True, zm == (Z(wv) if isint else T.ZR(wv))))
            bound = imp(band(inr, bnot(vn)), (Z(vv) <= zm if isint else T.ZR(vv) <= zm) if ismax else (Z(vv) >= zm if isint else T.ZR(vv) >= zm))
            trig_p = [(nm, [(p, i, 0) for i, p in enumerate(params)])] if params else None
            if params:
                T.REG.forall(params, att, triggers=trig_p)
            else:
                T.REG.ax.setdefault(nm, []).append(lambda att=att: [att])
            try:
                T.REG.forall(params + qs, bound)
            except Unsupported:
                pass
            return some
        some = install()
        if isint:
            res = m
        elif nan:
            res = F(m, bnot(some) if vn is not False else False)
        else:
            anynan = False
            if vn is not False:
                t = vn
                for d, q in reversed(list(zip(dims, qs))):
                    t = ilt(0, T.mk_count(d, q, t))
                anynan = t
            res = F(m, anynan)
        fam.append((ismax, nan, qs, zb, Z(vn), list(dims), params, res, nm, install))
        return res

    def between(self, st, c, base, skipnan=True):
        """a scalar that lies between two elements of a non-empty array (assumed: mean, median, percentile)"""
        I = self.I
        m, d = I.fresh(st, base, R)
        return m

    def stat_sym(self, st, c, base, skipnan):
        """mean/median/percentile: value between the least and the greatest (non-NaN) element"""
        I = self.I
        for _ in c.shape:
            pass
        if c.kind not in 'fi':
            raise Unsupported('statistic of %s' % c.kind)
        qs = tuple(T.bound_int('q') for _ in c.shape)
        sample = toF(c.get(qs))
        if sample.inf is not False:
            raise Unsupported('statistic of possibly infinite values')
        if not any(isz(d) for d in c.shape) and self.total(c.shape) == 0:
            return NAN
        m, d = I.fresh(st, base, R)
        loops = list(st.loops)

        def wit(tag):
            out = []
            for q in range(len(c.shape)):
                w, _ = I.fresh(st, '%s_%s%d' % (base, tag, q), IS)
                out.append(w)
            return tuple(out)
        lo, hi = wit('lo'), wit('hi')
        T.REG.witness[(m.decl() if z3.is_app(m) else m).name()] = [x.decl() for x in lo + hi]
        nonempty = band(*[ilt(0, n) for n in c.shape])
        if skipnan and sample.nan is not False:
            some = self.exists(st, list(c.shape), c.get, lambda v: bnot(toF(v).nan))
        else:
            some = nonempty
        fs = []
        for w, up in ((lo, False), (hi, True)):
            x = toF(c.get(w))
            fs.append(band(*[band(ile(0, i), ilt(i, n)) for i, n in zip(w, c.shape)]))
            fs.append(bnot(x.nan))
            fs.append(T.rle(m, x.v) if up else T.rle(x.v, m))
        fact = imp(some, band(*fs))
        self.assume_fresh(st, m, d, fact)
        if skipnan:
            nanf = bnot(some)
        else:
            anyn = self.exists(st, list(c.shape), c.get, lambda v: toF(v).nan) if sample.nan is not False else False
            nanf = bor(bnot(some), anyn)
            if sample.nan is not False:
                pass
        if self.I.decide(st, nanf) is False:
            nanf = False
        return F(m, nanf)

    def assume_fresh(self, st, term, decl, fact):
        """assume a fact about an oracle symbol for every iteration of the enclosing loops"""
        if fact is True:
            return
        if decl is None:
            nm = term.decl().name()
            T.REG.ax.setdefault(nm, []).append(lambda fact=fact: [Z(fact)])
        else:
            T.REG.forall(list(st.loops), fact, triggers=[(decl.name(), [(v, i, 0) for i, v in enumerate(st.loops)])])

    # ------------------------------------------------------------ sequences
    def cumsum(self, st, c):
        I = self.I
        if len(c.shape) != 1:
            c = I.content(st, self.ravel(st, c))
        n = c.shape[0]
        k = 'i' if c.kind in 'ib' else 'f'
        if not isz(n) and n <= 40:
            acc = []
            r = 0 if k == 'i' else toF(0)
            for q in range(n):
                v = c.get((q,))
                r = iadd(r, as_int(v)) if k == 'i' else T.fadd(r, toF(v))
                acc.append(r)

            def get(idx):
                i = idx[0]
                if not isz(i):
                    return acc[i] if 0 <= i < n else (acc[0] if acc else toF(0))
                x = acc[-1]
                for q in range(n - 2, -1, -1):
                    x = vite(ieq(i, q), acc[q], x)
                return x
            return I.alloc(st, AVal((n,), k, get))
        q = T.bound_int('s')
        v = c.get((q,))
        if k == 'i':
            t = as_int(v)
            return I.alloc(st, AVal((n,), 'i', lambda idx: T.mk_sum(iadd(idx[0], 1), q, t, 'int')))
        v = toF(v)
        if v.inf is not False:
            raise Unsupported('cumsum of possibly infinite values')

        def gets(idx):
            m = iadd(idx[0], 1)
            return F(T.mk_sum(m, q, v.v), ilt(0, T.mk_count(m, q, v.nan)) if v.nan is not False else False)
        return I.alloc(st, AVal((n,), 'f', gets))

    def searchsorted(self, st, c, v, side):
        I = self.I
        if not is_num(v):
            raise Unsupported('searchsorted of an array')
        n = c.shape[0]
        left = side == 'left'
        lt = (lambda a: T.flt(toF(a), toF(v))) if left else (lambda a: T.fle(toF(a), toF(v)))
        if not isz(n) and n <= 40:
            vals = [c.get((q,)) for q in range(n)]
            srt = band(*[T.fle(toF(vals[q]), toF(vals[q + 1])) for q in range(n - 1)], *[bnot(toF(x).nan) for x in vals], bnot(toF(v).nan))
            cnt = 0
            for x in reversed(vals):
                cnt = ite(lt(x), iadd(cnt, 1), 0)
            # on sorted data the elements below v form a prefix
            d = I.decide(st, srt)
            if d is True:
                return cnt
            w, dd = I.fresh(st, 'ss', IS)
            self.assume_fresh(st, w, dd, band(ile(0, w), ile(w, n)))
            return ite(srt, cnt, w)
        w, dd = I.fresh(st, 'ss', IS)
        below = lt(c.get((isub(w, 1),)))
        notb = bnot(lt(c.get((w,))))
        self.assume_fresh(st, w, dd, imp(ile(0, n), band(ile(0, w), ile(w, n), imp(ilt(0, w), below), imp(ilt(w, n), notb))))
        return w

    def argext(self, st, c, ismax):
        """index of the first least (greatest) element of a one-dimensional array"""
        I = self.I
        if c is None or len(c.shape) != 1 or c.kind not in 'fib':
            raise Unsupported('argmin of this array')
        n = c.shape[0]
        I.require(st, ilt(0, n), 'ValueError', 'argmin of an empty sequence')
        q = T.bound_int('q')
        inr = band(ile(0, q), ilt(q, n))
        num = (lambda v: toF(v).v) if c.kind == 'f' else (lambda v: T.ZR(as_int(v)))
        if c.kind == 'f':
            x = toF(c.get((q,)))
            bad = bor(x.nan, x.inf)
            if bad is not False and I.decide(st, bnot(band(inr, bad))) is not True:
                raise Unsupported('argmin of possibly NaN or infinite values')
        w, d = I.fresh(st, 'argmax' if ismax else 'argmin', IS)
        lp = list(st.loops)
        a, b = num(c.get((w,))), num(c.get((q,)))
        le = T.rle(b, a) if ismax else T.rle(a, b)
        lt = T.rlt(b, a) if ismax else T.rlt(a, b)
        self.assume_fresh(st, w, d, imp(ilt(0, n), band(ile(0, w), ilt(w, n))))
        T.REG.forall(lp + [q], imp(inr, band(le, imp(ilt(q, w), lt))))
        return w

    def argsort(self, st, c):
        I = self.I
        if len(c.shape) != 1:
            raise Unsupported('argsort')
        n = c.shape[0]
        _, d0 = I.fresh(st, 'perm', IS)
        nm = T.REG.fresh('perm')
        ar = len(st.loops)
        P = z3.Function(nm, *([IS] * (ar + 1) + [IS]))
        Q = z3.Function(nm + 'inv', *([IS] * (ar + 1) + [IS]))
        S = z3.Function(nm + 'key', *([IS] * (ar + 1) + [R]))
        lp = list(st.loops)
        i = T.bound_int('i')
        key = lambda t: toF(c.get((t,))).v
        inr = band(ile(0, i), ilt(i, n))
        p, q = P(*lp, i), Q(*lp, i)
        T.REG.forall(lp + [i], imp(inr, band(ile(0, p), ilt(p, n), Q(*lp, p) == i, S(*lp, i) == T.ZR(key(p)))),
                     triggers=[(P.name(), [(v, k, 0) for k, v in enumerate(lp + [i])]), (S.name(), [(v, k, 0) for k, v in enumerate(lp + [i])])])
        T.REG.forall(lp + [i], imp(inr, band(ile(0, q), ilt(q, n), P(*lp, q) == i, S(*lp, q) == T.ZR(key(i)))),
                     triggers=[(Q.name(), [(v, k, 0) for k, v in enumerate(lp + [i])])])
        T.REG.pairs[S.name()] = ('mono', n)
        T.REG.perms[Q.name()] = n
        T.REG.perms[P.name()] = n
        nan = toF(c.get((i,))).nan if c.kind == 'f' else False
        if nan is not False and I.decide(st, bnot(band(inr, nan))) is not True:
            raise Unsupported('argsort of possibly NaN values')
        return I.alloc(st, AVal((n,), 'i', lambda idx: P(*lp, Z(idx[0])), inv=lambda x: (True, Q(*lp, Z(x)))))
