"""Calls of built-in and external functions."""
import ast
from fractions import Fraction
import z3
from . import terms as T
from .terms import F, Unsupported, isz, band, bor, bnot, imp, ite, fite, beq, ieq, ilt, ile, iadd, isub, imul, toF, Z, NAN
from .values import *
from . import values as V
from . import libnp
from .libnp import R, IS, B, KD, fcos, fsqrt
from .lib import IxV

BUILTIN_FNS = {}
NPF = {}


def reg(*names):
    def d(f):
        for n in names:
            BUILTIN_FNS[n] = f
        return f
    return d


def raise_(exc, msg=None):
    from .interp import PyRaise
    raise PyRaise(exc, msg)


class KW(dict):
    """keyword arguments that record which of them the model looked at"""
    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def get(self, k, default=None):
        self.seen.add(k)
        return super().get(k, default)

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def __iter__(self):
        self.seen |= set(super().keys())
        return super().__iter__()

    def items(self):
        self.seen |= set(super().keys())
        return super().items()


IGNORED_KW = {'scipy.ndimage.gaussian_filter': {'sigma'}, 'numpy.array': {'order', 'copy'}, 'numpy.asarray': {'order'}, 'numpy.ascontiguousarray': {'order'}, 'numpy.copy': {'order'}}


def call(L, st, name, args, kw):
    I = L.I
    args = [I.force(a, st) for a in args]
    kw = {k: I.force(v, st) for k, v in kw.items()}
    f = I.ext.get(name)
    if f is not None:
        return f(I, st, args, kw)
    f = BUILTIN_FNS.get(name)
    if f is not None:
        if not kw or not name.startswith(('numpy.', 'scipy.')):
            return f(L, st, args, kw)
        kw = KW(kw)
        r = f(L, st, args, kw)
        left = set(dict.keys(kw)) - kw.seen - IGNORED_KW.get(name, set())
        if left and not isinstance(r, Opaque):
            raise Unsupported('%s with %s' % (name, ', '.join(sorted(left))))
        return r
    if name.startswith('numpy.') or name.startswith('scipy.') or name.startswith('os.') or name.startswith('json.') or name.startswith('tqdm'):
        fo = OPAQUE_FNS.get(name)
        if fo:
            return fo(L, st, args, kw)
    raise Unsupported('call of ' + name)


def opt(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


# ---------------------------------------------------------------- basic builtins
@reg('range')
def _range(L, st, a, k):
    for x in a:
        if isinstance(x, F) or x is None or isinstance(x, str):
            raise_('TypeError', 'range')
    a = [as_int(x) for x in a]
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isz(step):
        raise Unsupported('symbolic range step')
    d = isub(hi, lo) if step > 0 else isub(lo, hi)
    s = abs(step)
    if s != 1:
        d = (d + s - 1) // s if not isz(d) else T.isimp((Z(d) + (s - 1)) / s)
    n = L.I.pick(st, ile(0, d), d, 0)
    return IterV(n, lambda i, s2: iadd(lo, imul(step, i)), 'range')


@reg('len')
def _len(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, LVal):
        return c.len
    if isinstance(c, tuple):
        return len(c)
    if isinstance(c, str):
        return len(c)
    if isinstance(c, SStr):
        return L.I.fresh(st, 'strlen', IS)[0]
    if isinstance(c, DVal):
        return len(L.dict_keys(st, a[0]))
    if isinstance(c, AVal):
        if not c.shape:
            raise_('TypeError', 'len of 0-d')
        return c.shape[0]
    if isinstance(c, IterV) and c.kind in ('range', 'set', 'view'):
        return c.len
    if isinstance(c, Comp):
        m = c.mask
        qs = [T.bound_int('c') for _ in m.shape]
        t = m.get(tuple(qs))
        first = True
        for d, q in reversed(list(zip(m.shape, qs))):
            t = T.mk_count(d, q, t) if first else T.mk_sum(d, q, t, 'int')
            first = False
        return t
    if isinstance(c, Opaque):
        x, d = L.I.fresh(st, 'len', IS)
        L.np.assume_fresh(st, x, d, ile(0, x))
        return x
    raise_('TypeError', 'len')


@reg('tuple')
def _tuple(L, st, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, tuple):
        return v
    if isinstance(v, Opaque):
        return Opaque('tuple')
    it = None if isinstance(v, IterV) and v.eff is not None else L.I.to_iter(v, st)
    if it is None or isz(it.len) or it.len > 64:
        raise Unsupported('tuple of unknown length')
    return tuple(it.fn(i, st) for i in range(it.len))


@reg('list')
def _list(L, st, a, k):
    I = L.I
    if not a:
        return I.alloc(st, LVal(None, items=[]))
    v = a[0]
    if isinstance(v, IterV) and v.eff is not None:
        return map_list(L, st, v)
    if isinstance(v, Opaque):
        return Opaque('list')
    it = I.to_iter(v, st)
    if not isz(it.len) and it.len <= 64:
        return I.alloc(st, LVal(None, items=[it.fn(i, st) for i in range(it.len)]))
    return I.alloc(st, iter_list(L, st, it))


def iter_list(L, st, it):
    """list value of an iterator without effects"""
    I = L.I
    q = T.bound_int('q')
    s2 = st.copy()
    s2.assume(ile(0, q))
    s2.assume(ilt(q, it.len))
    I.nofork += 1
    from .interp import NoFork
    try:
        e = L.embed(s2, it.fn(q, s2))
    except NoFork:
        raise Unsupported('list of an iterator that needs case distinctions')
    finally:
        I.nofork -= 1
    if has_ref(e):
        raise Unsupported('references inside a symbolic list')
    tm = Template(e)
    return LVal(it.len, lambda i: tm.at([(q, i)]))


def has_ref(e):
    if isinstance(e, (Ref, AView, Path)):
        return True
    if isinstance(e, tuple):
        return any(has_ref(x) for x in e)
    return False


@reg('dict')
def _dict(L, st, a, k):
    d = {}
    if a:
        c = L.I.content(st, a[0])
        if isinstance(c, DVal):
            d = dict(c.d)
        else:
            it = L.I.to_iter(a[0], st)
            if isz(it.len):
                raise Unsupported('dict of symbolic iterable')
            for i in range(it.len):
                kk, v = L.I.unpack(it.fn(i, st), 2, st)
                d[kk] = v
    d.update(k)
    return L.I.alloc(st, DVal(d))


@reg('set', 'frozenset')
def _set(L, st, a, k):
    I = L.I
    if not a:
        return IterV(0, lambda i, s: None, 'set')
    it = I.to_iter(a[0], st)
    if not isz(it.len):
        items = [it.fn(i, st) for i in range(it.len)]
        if all(isinstance(x, str) or (isinstance(x, int)) for x in items):
            u = []
            for x in items:
                if x not in u:
                    u.append(x)
            return IterV(len(u), lambda i, s: u[i], 'set')
    if isz(it.len):
        # numbers: the distinct ones are counted at their first occurrence
        q, q2 = T.bound_int('d'), T.bound_int('d')
        try:
            x, y = it.fn(q, st), it.fn(q2, st)
        except Exception:
            x = y = None
        if isinstance(x, F) and isinstance(y, F) and x.inf is False:
            inr = band(ile(0, q), ilt(q, it.len))
            if x.nan is False or I.decide(st, imp(inr, bnot(x.nan))) is True:
                first = T.ilt(T.mk_count(q, q2, T.req(T.ZR(y.v), T.ZR(x.v))), 1)

                def fn(i, s):
                    raise Unsupported('iteration over a set')
                return IterV(T.mk_count(it.len, q, first), fn, 'set')
    n, d = I.fresh(st, 'distinct', IS)
    src = it
    L.np.assume_fresh(st, n, d, band(ile(0, n), imp(ile(0, it.len), ile(n, it.len)), imp(ilt(0, it.len), ile(1, n))))

    def fn(i, s):
        raise Unsupported('iteration over a set')
    r = IterV(n, fn, 'set')
    r.eff = None
    return r


@reg('zip')
def _zip(L, st, a, k):
    I = L.I
    its = [I.to_iter(x, st) for x in a]
    if not its:
        return IterV(0, lambda i, s: (), 'zip')
    n = its[0].len
    for it in its[1:]:
        m = it.len
        n = I.pick(st, ile(n, m), n, m) if not T.same(n, m) else n
    return IterV(n, lambda i, s: tuple(it.fn(i, s) for it in its), 'zip')


@reg('enumerate')
def _enum(L, st, a, k):
    it = L.I.to_iter(a[0], st)
    s0 = opt(a, k, 1, 'start', 0)
    return IterV(it.len, lambda i, s: (iadd(i, s0), it.fn(i, s)), 'zip')


@reg('reversed')
def _rev(L, st, a, k):
    it = L.I.to_iter(a[0], st)
    return IterV(it.len, lambda i, s: it.fn(isub(isub(it.len, 1), i), s), 'iter')


@reg('map')
def _map(L, st, a, k):
    I = L.I
    its = [I.to_iter(x, st) for x in a[1:]]
    n = its[0].len
    for it in its[1:]:
        n = I.pick(st, ile(n, it.len), n, it.len) if not T.same(n, it.len) else n
    v = IterV(n, None, 'map')
    v.eff = (a[0], its)
    return v


def map_list(L, st, v):
    I = L.I
    f, its = v.eff
    if f == 'comp':
        raise Unsupported('lazy comprehension')
    res = I.alloc(st, LVal(None, items=[]))
    if not isz(v.len) and v.len <= I.UNROLL:
        for i in range(v.len):
            L.append(st, res, I.call(f, [it.fn(i, st) for it in its], {}, st))
        return res

    def step(y, kk):
        return I.simple(lambda z: L.append(z, res, I.call(f, [it.fn(kk, z) for it in its], {}, z)), y)
    I.effect_loop(st, v.len, step, 'map')
    return res


@reg('filter')
def _filter(L, st, a, k):
    raise Unsupported('filter')


@reg('sorted')
def _sorted(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, Opaque):
        return c
    it = L.I.to_iter(a[0], st)
    if not isz(it.len):
        items = [it.fn(i, st) for i in range(it.len)]
        if all(isinstance(x, str) for x in items) or all(isinstance(x, int) for x in items):
            return L.I.alloc(st, LVal(None, items=sorted(items)))
    raise Unsupported('sorted')


def minmax(L, st, a, k, ismax):
    I = L.I
    if 'key' in k:
        raise Unsupported('min/max with key')
    if len(a) == 1:
        c = I.content(st, a[0])
        if isinstance(c, Opaque):
            return Opaque('minmax')
        if isinstance(c, AVal) and len(c.shape) == 1:
            arr = c
        else:
            it = I.to_iter(a[0], st)
            if not isz(it.len):
                vals = [it.fn(i, st) for i in range(it.len)]
                if not vals:
                    if 'default' in k:
                        return k['default']
                    raise_('ValueError', 'empty')
                return seqminmax(L, st, vals, ismax)
            q = T.bound_int('q')
            e = it.fn(q, st)
            if not is_num(e):
                raise Unsupported('min/max of non-numbers')
            arr = AVal((it.len,), V.kind_of(e), lambda idx: it.fn(idx[0], st))
        I.require(st, ilt(0, arr.shape[0]), 'ValueError', 'empty')
        q = T.bound_int('q')
        e = arr.get((q,))
        if isinstance(e, F) and (e.nan is not False or e.inf is not False):
            s2 = st.copy()
            s2.assume(ile(0, q))
            s2.assume(ilt(q, arr.shape[0]))
            if I.decide(s2, band(bnot(e.nan), bnot(e.inf))) is not True:
                raise Unsupported('min/max of values that may be nan')
            g = arr.get
            arr = AVal(arr.shape, 'f', lambda idx: F(g(idx).v))
        return L.np.extremum(st, arr, None, ismax)
    return seqminmax(L, st, [I.force(x, st) for x in a], ismax)


def seqminmax(L, st, vals, ismax):
    """Python's min/max of a sequence: the first value is replaced only by a strictly better one"""
    if any(isinstance(x, Opaque) for x in vals):
        return Opaque('minmax')
    r = vals[0]
    for v in vals[1:]:
        if not (is_num(v) and is_num(r)):
            raise_('TypeError', 'min/max')
        c = L.scmp(ast.Gt() if ismax else ast.Lt(), v, r)
        d = L.I.decide(st, c)
        r = v if d is True else r if d is False else vite(c, v, r)
    return r


@reg('max')
def _max(L, st, a, k):
    return minmax(L, st, a, k, True)


@reg('min')
def _min(L, st, a, k):
    return minmax(L, st, a, k, False)


def scalar_abs(x):
    if isinstance(x, F):
        return T.fabs(x)
    x = as_int(x)
    return abs(x) if not isz(x) else ite(ile(0, x), x, isub(0, x))


@reg('abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs')
def _abs(L, st, a, k):
    return L.np.emap(st, scalar_abs, lambda q: 'i' if q == 'b' else q, a[0])


@reg('int', 'numpy.int64', 'numpy.int32', 'numpy.intp')
def _int(L, st, a, k):
    if not a:
        return 0
    c = L.I.content(st, a[0])
    if isinstance(c, F):
        L.I.require(st, bnot(c.nan), 'ValueError', 'int of nan')
        L.I.require(st, bnot(c.inf), 'OverflowError', 'int of inf')
        return L.np.trunc_int(c.v)
    if is_num(c):
        return as_int(c)
    if isinstance(c, Opaque):
        return L.I.fresh(st, 'int', IS)[0]
    if isinstance(c, str):
        try:
            return int(c)
        except ValueError:
            raise_('ValueError', 'int of str')
    if isinstance(c, AVal) and not c.shape:
        return _int(L, st, [c.get(())], k)
    if isinstance(c, OV):
        raise Unsupported('int of unknown')
    raise_('TypeError', 'int')


@reg('float', 'numpy.float64', 'numpy.float32')
def _float(L, st, a, k):
    c = L.I.content(st, a[0]) if a else 0
    if is_num(c):
        return toF(c)
    if isinstance(c, Opaque):
        return F(L.I.fresh(st, 'float', R)[0])
    if isinstance(c, str):
        try:
            return toF(float(c))
        except ValueError:
            raise_('ValueError', 'float of str')
    if isinstance(c, AVal) and not c.shape:
        return toF(c.get(()))
    if isinstance(c, OV):
        raise Unsupported('float of unknown')
    raise_('TypeError', 'float')


@reg('bool', 'numpy.bool_')
def _bool(L, st, a, k):
    return L.I.truth(a[0], st) if a else False


@reg('str', 'repr')
def _str(L, st, a, k):
    c = L.I.content(st, a[0]) if a else ''
    if isinstance(c, str):
        return c
    return L.mkstr([L.snap(st, a[0])])


@reg('numpy.round', 'numpy.rint', 'numpy.around')
def _npround(L, st, a, k):
    d = opt(a, k, 1, 'decimals', 0)
    if not isinstance(d, int) or opt(a, k, 2, 'out') is not None:
        raise Unsupported('round with these arguments')
    s = Fraction(10) ** d
    c = L.I.content(st, a[0])

    def one(x):
        if is_intv(x) and d >= 0:
            return x
        x = toF(x)
        v = T.ZR(x.v)
        r = T.ZR(L.np.round_int(v * T.ZR(s) if d else x.v))
        return F(r / T.ZR(s) if d else r, x.nan, x.inf)
    if isinstance(c, AVal) or is_num(c):
        if is_num(c):
            return one(c)
        if c.kind not in 'fi':
            raise Unsupported('round of this array')
        return L.np.emap(st, one, lambda *q: c.kind, c)
    raise Unsupported('round')


@reg('round')
def _round(L, st, a, k):
    nd = opt(a, k, 1, 'ndigits')
    if nd is not None and nd != 0:
        raise Unsupported('round with digits')
    c = L.I.content(st, a[0])
    if isinstance(c, AVal):
        return L.np.emap(st, lambda x: toF(L.np.round_int(toF(x).v)), lambda q: 'f', c)
    if is_num(c):
        if isinstance(c, F):
            L.I.require(st, bnot(c.nan), 'ValueError', 'round of nan')
            L.I.require(st, bnot(c.inf), 'OverflowError', 'round of inf')
            return L.np.round_int(c.v)
        return as_int(c)
    raise_('TypeError', 'round')


TYPES = {'float': lambda c: isinstance(c, F), 'int': lambda c: is_intv(c) or is_boolv(c), 'bool': lambda c: is_boolv(c),
         'str': lambda c: isinstance(c, (str, SStr)), 'list': lambda c: isinstance(c, LVal), 'tuple': lambda c: isinstance(c, tuple),
         'dict': lambda c: isinstance(c, DVal), 'numpy.ndarray': lambda c: isinstance(c, AVal),
         'numpy.floating': lambda c: False, 'numpy.integer': lambda c: False, 'numpy.generic': lambda c: False}


@reg('isinstance')
def _isinstance(L, st, a, k):
    c = L.I.content(st, a[0])
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(c, OV):
        raise Unsupported('type test of an unknown value')
    out = False
    for t in ts:
        t = L.I.force(t, st)
        if isinstance(t, Builtin) and t.name in TYPES:
            out = out or TYPES[t.name](c)
        elif isinstance(t, ClassV):
            out = out or (isinstance(c, OVal) and isinstance(c.cls, ClassV) and c.cls.name == t.name)
        elif isinstance(t, Opaque):
            if isinstance(c, (Opaque, OVal)):
                raise Unsupported('isinstance')
        else:
            raise Unsupported('isinstance')
    return out


@reg('getattr')
def _getattr(L, st, a, k):
    nm = a[1]
    if isinstance(nm, SName):
        return name_attr(L, st, a, nm)
    if isinstance(nm, SStr):
        raise Unsupported('getattr of a symbolic name')
    if len(a) > 2:
        return L.I.get_attr(a[0], nm, st, a[2], True)
    return L.I.get_attr(a[0], nm, st)


def name_attr(L, st, a, nm):
    """attribute of the logging module with a symbolic name: exactly the upper-case names in LEVELS are integers"""
    if not (isinstance(a[0], ModuleV) and a[0].name == 'logging'):
        raise Unsupported('getattr of a symbolic name')
    from .lib import LEVELS
    for x in sorted(LEVELS):
        if L.I.choose(st, nm.eq(x)):
            return LEVELS[x]
    if L.I.choose(st, L.I.fresh(st, 'noattr', z3.BoolSort())[0]):
        if len(a) > 2:
            return a[2]
        raise_('AttributeError', 'logging')
    if nm.form != 'upper' and L.I.choose(st, L.I.fresh(st, 'intattr', z3.BoolSort())[0]):
        return True                             # logging.raiseExceptions and the like
    return Opaque('logging attribute')


@reg('hasattr')
def _hasattr(L, st, a, k):
    from .interp import PyRaise
    try:
        L.I.get_attr(a[0], a[1], st)
        return True
    except PyRaise as e:
        if e.exc == 'AttributeError':
            return False
        raise


@reg('setattr')
def _setattr(L, st, a, k):
    L.I.set_attr(a[0], a[1], a[2], st)


def seq_array(L, st, v):
    """1-D array view of a sequence of numbers"""
    I = L.I
    c = I.content(st, v)
    if isinstance(c, AVal):
        return c
    it = I.to_iter(v, st)
    if not isz(it.len):
        vals = [it.fn(i, st) for i in range(it.len)]
        r = L.np.array(st, I.alloc(st, LVal(None, items=vals)))
        return I.content(st, r)
    q = T.bound_int('q')
    e = it.fn(q, st)
    if not is_num(e):
        raise Unsupported('sequence of non-numbers')
    return AVal((it.len,), V.kind_of(e), lambda idx: it.fn(idx[0], st))


@reg('sum')
def _sum(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, Opaque):
        return Opaque('sum')
    if isinstance(a[0], IterV) and a[0].eff is not None:
        a = [map_list(L, st, a[0])] + a[1:]
    arr = seq_array(L, st, a[0])
    r = L.np.sum(st, arr)
    s0 = opt(a, k, 1, 'start', 0)
    if not isz(s0) and s0 == 0 and not (not isz(arr.shape[0]) and arr.shape[0] == 0):
        return r
    return L.binop(st, ast.Add(), s0, r) if not (not isz(arr.shape[0]) and arr.shape[0] == 0) else s0


@reg('any', 'all')
def _any_(L, st, a, k):
    raise Unsupported('any/all')


def _mk_any(isany):
    def f(L, st, a, k):
        I = L.I
        c = I.content(st, a[0])
        if isinstance(c, Opaque):
            return L.I.fresh(st, 'any', z3.BoolSort())[0]
        it = I.to_iter(a[0], st)
        if not isz(it.len):
            ts = [I.truth(it.fn(i, st), st) for i in range(it.len)]
            return bor(*ts) if isany else band(*ts)
        arr = seq_array(L, st, a[0])
        return L.np.quant(st, arr, None, isany)
    return f


BUILTIN_FNS['any'] = _mk_any(True)
BUILTIN_FNS['all'] = _mk_any(False)


@reg('divmod')
def _divmod(L, st, a, k):
    return (L.sbin(st, ast.FloorDiv(), a[0], a[1], False), L.sbin(st, ast.Mod(), a[0], a[1], False))


@reg('print')
def _print(L, st, a, k):
    return None


@reg('callable')
def _callable(L, st, a, k):
    return isinstance(L.I.content(st, a[0]), (Closure, Bound, Builtin, ClassV, Method))


@reg('type')
def _type(L, st, a, k):
    if len(a) != 1 or k:
        raise Unsupported('type() with several arguments')
    c = L.I.content(st, a[0])
    if c is None:
        return Builtin('NoneType')
    if isinstance(c, OVal) and isinstance(c.cls, ClassV):
        return c.cls
    for t, name in ((bool, 'bool'), (int, 'int'), (str, 'str'), (SStr, 'str'), (LVal, 'list'), (tuple, 'tuple'), (DVal, 'dict'), (AVal, 'numpy.ndarray')):
        if isinstance(c, t):
            return Builtin(name)
    if isinstance(c, (Opaque, Closure, Bound, Builtin, ClassV, Method)):
        return Opaque('type of ' + (c.tag if isinstance(c, Opaque) else 'function'))
    raise Unsupported('type() of a number that may be a numpy scalar')


@reg('slice')
def _slice(L, st, a, k):
    a = [None if x is None else x for x in a]
    return SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@reg('open')
def _open(L, st, a, k):
    m = opt(a, k, 1, 'mode', 'r')
    return Opaque('file:' + m if isinstance(m, str) else 'file')


@reg('tqdm', 'tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.trange')
def _tqdm(L, st, a, k):
    return a[0]


# ---------------------------------------------------------------- numpy
def np_(*names):
    return reg(*['numpy.' + n for n in names])


@np_('array', 'asarray', 'ascontiguousarray', 'copy', 'asanyarray', 'atleast_1d')
def _array(L, st, a, k):
    return L.np.array(st, a[0], opt(a, k, 1, 'dtype'))


def _fill_fn(v, kind='f'):
    def f(L, st, a, k):
        dt = L.np.dtype_kind(opt(a, k, 1, 'dtype')) or kind
        sh = L.np.shape_arg(st, opt(a, k, 0, 'shape'))
        return L.np.filled(st, sh, L.np.cast(dt, v), dt)
    return f


BUILTIN_FNS['numpy.zeros'] = _fill_fn(toF(0))
BUILTIN_FNS['numpy.ones'] = _fill_fn(toF(1))


@np_('full')
def _full(L, st, a, k):
    v = L.I.content(st, a[1])
    dt = L.np.dtype_kind(opt(a, k, 2, 'dtype')) or V.kind_of(v)
    return L.np.filled(st, L.np.shape_arg(st, a[0]), L.np.cast(dt, v), dt)


@np_('empty')
def _empty(L, st, a, k):
    dt = L.np.dtype_kind(opt(a, k, 1, 'dtype')) or 'f'
    if dt != 'f':
        raise Unsupported('np.empty')
    sh = L.np.shape_arg(st, a[0])
    nm = T.REG.fresh('empty')
    d = z3.Function(nm, *([IS] * len(sh) + [R])) if sh else None
    dn = z3.Function(nm + 'n', *([IS] * len(sh) + [B]))
    return L.I.alloc(st, AVal(sh, 'f', lambda idx: F(d(*[Z(i) for i in idx]), dn(*[Z(i) for i in idx]))))


def _like(v):
    def f(L, st, a, k):
        c = L.I.content(st, a[0])
        if isinstance(c, Opaque):
            return c
        if isinstance(c, LVal):
            c = L.list_to_array(st, c)
        dt = L.np.dtype_kind(opt(a, k, 1 if v is not None else 2, 'dtype')) or c.kind
        x = v if v is not None else L.I.content(st, a[1])
        x = L.np.cast(dt, x)
        return L.I.alloc(st, AVal(c.shape, dt, lambda idx: x))
    return f


BUILTIN_FNS['numpy.zeros_like'] = _like(toF(0))
BUILTIN_FNS['numpy.ones_like'] = _like(toF(1))
BUILTIN_FNS['numpy.full_like'] = _like(None)


@np_('empty_like')
def _empty_like(L, st, a, k):
    c = L.I.content(st, a[0])
    return _empty(L, st, [tuple(c.shape)], k)


@np_('arange')
def _arange(L, st, a, k):
    dt = L.np.dtype_kind(opt(a, k, 3, 'dtype'))
    a = a[:3]
    if any(isinstance(L.I.content(st, x), Opaque) for x in a):
        return Opaque('arange')
    a = [L.I.content(st, x) for x in a]
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not any(isinstance(x, F) for x in (lo, hi, step)):
        r = _range(L, st, [lo, hi, step], {})
        kk = dt or 'i'
        return L.I.alloc(st, AVal((r.len,), kk, lambda idx: L.np.cast(kk, r.fn(idx[0], None))))
    lo, hi, step = toF(lo), toF(hi), toF(step)
    n = L.np.ceil_int(T.rdiv(T.rsub(hi.v, lo.v), step.v))
    n = ite(ile(0, n), n, 0)
    return L.I.alloc(st, AVal((n,), dt or 'f', lambda idx: L.np.cast(dt, T.fadd(lo, T.fmul(toF(idx[0]), step)))))


@np_('linspace')
def _linspace(L, st, a, k):
    lo, hi = L.I.content(st, a[0]), L.I.content(st, a[1])
    n = opt(a, k, 2, 'num', 50)
    if isinstance(lo, Opaque) or isinstance(hi, Opaque) or isinstance(n, Opaque):
        return Opaque('linspace')
    lo, hi = toF(lo), toF(hi)
    n = as_int(n)
    L.I.require(st, ile(0, n), 'ValueError', 'linspace')
    if not isz(n):
        d = Fraction(max(n - 1, 1))
        step = T.fdiv(T.fsub(hi, lo), F(d))
    else:
        # (hi - lo) / (n - 1); a syntactic multiple of n - 1 is divided exactly
        q = exact_div(T.rsub(hi.v, lo.v), isub(n, 1))
        if q is not None:
            step = F(q, bor(lo.nan, hi.nan))
        else:
            step = F(T.rdiv(T.rsub(hi.v, lo.v), z3.ToReal(Z(isub(n, 1)))), bor(lo.nan, hi.nan))
    return L.I.alloc(st, AVal((n,), 'f', lambda idx: T.fadd(lo, T.fmul(toF(idx[0]), step))))


def exact_div(t, n):
    """q with t == q * n, found syntactically"""
    if not isz(t):
        return None
    s = z3.simplify(t, som=True)
    m = z3.simplify(z3.ToReal(Z(n)))
    # try t = c * m for each factor c occurring in t
    seen = []
    stack = [s]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.sort() == R:
            if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED,):
                if not any(x.eq(y) for y in seen):
                    seen.append(x)
            stack.extend(x.children())
        if len(seen) > 12:
            break
    for c in seen:
        d = z3.simplify(s - c * m, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return c
    return None


@np_('meshgrid')
def _meshgrid(L, st, a, k):
    x, y = L.I.content(st, a[0]), L.I.content(st, a[1])
    sh = (y.shape[0], x.shape[0])
    if k.get('indexing', 'xy') != 'xy':
        sh = (x.shape[0], y.shape[0])
        return (L.I.alloc(st, AVal(sh, x.kind, lambda i: x.get((i[0],)))), L.I.alloc(st, AVal(sh, y.kind, lambda i: y.get((i[1],)))))
    return (L.I.alloc(st, AVal(sh, x.kind, lambda i: x.get((i[1],)))), L.I.alloc(st, AVal(sh, y.kind, lambda i: y.get((i[0],)))))


@np_('tile')
def _tile(L, st, a, k):
    c = L.I.content(st, a[0])
    reps = L.np.shape_arg(st, a[1])
    n = max(len(reps), len(c.shape))
    cs = (1,) * (n - len(c.shape)) + tuple(c.shape)
    rs = (1,) * (n - len(reps)) + tuple(reps)
    shape = tuple(imul(x, y) for x, y in zip(cs, rs))
    off = n - len(c.shape)

    def get(idx):
        ii = []
        for q in range(off, n):
            i = idx[q]
            if not isz(rs[q]) and rs[q] == 1:
                ii.append(i)
            elif not isz(cs[q]) and cs[q] == 1:
                ii.append(0)
            else:
                ii.append(L.np.imod(i, cs[q]))
        return c.get(tuple(ii))
    return L.I.alloc(st, AVal(shape, c.kind, get))


@np_('repeat')
def _repeat(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, LVal):
        c = L.list_to_array(st, c)
    rep, axis = opt(a, k, 1, 'repeats'), opt(a, k, 2, 'axis')
    if is_num(c):
        c = AVal((1,), V.kind_of(c), lambda idx, c=c: c)
    if axis is None:
        if len(c.shape) != 1:
            raise Unsupported('repeat without axis')
        axis = 0
    axis %= len(c.shape)
    if not is_intv(rep):
        raise Unsupported('repeat counts')
    shape = tuple(imul(d, rep) if q == axis else d for q, d in enumerate(c.shape))

    def get(idx):
        i = idx[axis]
        one = not isz(c.shape[axis]) and c.shape[axis] == 1
        j = 0 if one else L.np.idiv(st, i, rep)
        return c.get(tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:]))
    return L.I.alloc(st, AVal(shape, c.kind, get))


@np_('broadcast_to')
def _bcast(L, st, a, k):
    c = L.I.content(st, a[0])
    if is_num(c):
        return L.np.filled(st, L.np.shape_arg(st, a[1]), c, V.kind_of(c))
    return L.I.alloc(st, L.np.bcast_to(st, c, L.np.shape_arg(st, a[1])))


@np_('expand_dims')
def _expand(L, st, a, k):
    c = L.I.content(st, a[0])
    ax = opt(a, k, 1, 'axis') % (len(c.shape) + 1)
    return L.I.alloc(st, AVal(c.shape[:ax] + (1,) + c.shape[ax:], c.kind, lambda idx: c.get(tuple(idx[:ax]) + tuple(idx[ax + 1:]))))


@np_('pad')
def _pad(L, st, a, k):
    c = L.I.content(st, a[0])
    w = opt(a, k, 1, 'pad_width')
    mode = opt(a, k, 2, 'mode', 'constant')
    if mode != 'constant' or not isinstance(w, int):
        raise Unsupported('np.pad')
    v = L.cast_store(c.kind, L.I.content(st, k.get('constant_values', 0)))
    shape = tuple(iadd(d, 2 * w) for d in c.shape)

    def get(idx):
        inside = band(*[band(ile(w, i), ilt(i, iadd(d, w))) for i, d in zip(idx, c.shape)])
        if inside is False:
            return v
        return vite(inside, c.get(tuple(isub(i, w) for i in idx)), v)
    return L.I.alloc(st, AVal(shape, c.kind, get))


@np_('transpose')
def _tr(L, st, a, k):
    return L.np.transpose(st, L.I.content(st, a[0]))


@np_('flipud')
def _flipud(L, st, a, k):
    c = L.I.content(st, a[0])
    n = c.shape[0]
    return L.I.alloc(st, AVal(c.shape, c.kind, lambda idx: c.get((isub(isub(n, 1), idx[0]),) + tuple(idx[1:]))))


@np_('fliplr')
def _fliplr(L, st, a, k):
    c = L.I.content(st, a[0])
    n = c.shape[1]
    return L.I.alloc(st, AVal(c.shape, c.kind, lambda idx: c.get((idx[0], isub(isub(n, 1), idx[1])) + tuple(idx[2:]))))


@np_('flip')
def _flip(L, st, a, k):
    ax = opt(a, k, 1, 'axis')
    if ax == 0:
        return _flipud(L, st, a, k)
    if ax == 1:
        return _fliplr(L, st, a, k)
    raise Unsupported('flip')


@np_('ravel')
def _ravel(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, LVal):
        c = L.list_to_array(st, c)
    return L.np.ravel(st, c)


@np_('reshape')
def _reshape(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, LVal):
        c = L.list_to_array(st, c)
    return L.I.alloc(st, L.np.reshape_val(st, c, a[1]))


@np_('concatenate', 'hstack')
def _concat(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, AVal) and len(c.shape) == 2:
        return L.np.ravel(st, c)
    it = L.I.to_iter(a[0], st)
    if isz(it.len):
        raise Unsupported('concatenate')
    parts = [L.I.content(st, it.fn(i, st)) for i in range(it.len)]
    parts = [L.list_to_array(st, p) if isinstance(p, LVal) else p for p in parts]
    if any(isinstance(p, Opaque) for p in parts):
        return Opaque('concatenate')
    if any(not isinstance(p, AVal) or len(p.shape) != 1 for p in parts) or opt(a, k, 1, 'axis', 0) != 0:
        raise Unsupported('concatenate')
    kind = parts[0].kind
    for p in parts[1:]:
        kind = V.join_kind(kind, p.kind)
    offs = [0]
    for p in parts:
        offs.append(iadd(offs[-1], p.shape[0]))

    def get(idx):
        r = L.np.cast(kind, parts[-1].get((isub(idx[0], offs[-2]),)))
        for q in range(len(parts) - 2, -1, -1):
            r = vite(ilt(idx[0], offs[q + 1]), L.np.cast(kind, parts[q].get((isub(idx[0], offs[q]),))), r)
        return r
    return L.I.alloc(st, AVal((offs[-1],), kind, get))


@np_('column_stack')
def _column_stack(L, st, a, k):
    return _stack(L, st, [a[0], 1], k, True)


@np_('vstack', 'row_stack')
def _vstack(L, st, a, k):
    return _stack(L, st, [a[0], 0], k, True)


@np_('stack')
def _stack(L, st, a, k, flat=False):
    it = L.I.to_iter(a[0], st)
    if isz(it.len):
        raise Unsupported('stack')
    parts = [L.I.content(st, it.fn(i, st)) for i in range(it.len)]
    parts = [L.list_to_array(st, p) if isinstance(p, LVal) else p for p in parts]
    if any(not isinstance(p, AVal) or flat and len(p.shape) != 1 for p in parts):
        raise Unsupported('stack')
    nd = len(parts[0].shape)
    ax = opt(a, k, 1, 'axis', 0) % (nd + 1)
    kind = parts[0].kind
    sh = parts[0].shape
    for p in parts[1:]:
        kind = V.join_kind(kind, p.kind)
        for x, y in zip(sh, p.shape):
            L.I.require(st, ieq(x, y), 'ValueError', 'stack')
    n = len(parts)

    def get(idx):
        i = idx[ax]
        rest = tuple(idx[:ax]) + tuple(idx[ax + 1:])
        if not isz(i):
            return L.np.cast(kind, parts[i].get(rest))
        r = L.np.cast(kind, parts[-1].get(rest))
        for q in range(n - 2, -1, -1):
            r = vite(ieq(i, q), L.np.cast(kind, parts[q].get(rest)), r)
        return r
    return L.I.alloc(st, AVal(sh[:ax] + (n,) + sh[ax:], kind, get))


@np_('ix_')
def _ix(L, st, a, k):
    return IxV([L.I.content(st, x) for x in a])


@np_('shape')
def _shape(L, st, a, k):
    c = L.I.content(st, a[0])
    if isinstance(c, AVal):
        return tuple(c.shape)
    if is_num(c):
        return ()
    if isinstance(c, (str, SStr)) or c is None:
        return ()
    if isinstance(c, (LVal, tuple, IterV)):
        return L.np.nested(st, c)[0]
    raise Unsupported('np.shape')


@np_('isnan')
def _isnan(L, st, a, k):
    return L.np.emap(st, lambda x: x.nan if isinstance(x, F) else False, lambda q: 'b', a[0])


@np_('isfinite')
def _isfinite(L, st, a, k):
    return L.np.emap(st, lambda x: T.ffinite(x) if isinstance(x, F) else True, lambda q: 'b', a[0])


@np_('isinf')
def _isinf(L, st, a, k):
    return L.np.emap(st, lambda x: x.inf if isinstance(x, F) else False, lambda q: 'b', a[0])


@np_('logical_not', 'invert')
def _lnot(L, st, a, k):
    return L.np.emap(st, lambda x: bnot(L.np.cast('b', x)), lambda q: 'b', a[0])


def _lbin(f):
    return lambda L, st, a, k: L.np.emap(st, lambda x, y: f(L.np.cast('b', x), L.np.cast('b', y)), lambda p, q: 'b', a[0], a[1])


BUILTIN_FNS['numpy.logical_and'] = _lbin(band)
BUILTIN_FNS['numpy.logical_or'] = _lbin(bor)


def _abin(op):
    return lambda L, st, a, k: L.binop(st, op, a[0], a[1])


for _n, _o in (('add', ast.Add()), ('subtract', ast.Sub()), ('multiply', ast.Mult()), ('divide', ast.Div()), ('true_divide', ast.Div()),
               ('power', ast.Pow()), ('mod', ast.Mod()), ('floor_divide', ast.FloorDiv())):
    BUILTIN_FNS['numpy.' + _n] = _abin(_o)
for _n, _o in (('less', ast.Lt()), ('less_equal', ast.LtE()), ('greater', ast.Gt()), ('greater_equal', ast.GtE()), ('equal', ast.Eq()),
               ('not_equal', ast.NotEq())):
    BUILTIN_FNS['numpy.' + _n] = (lambda o: lambda L, st, a, k: L.compare(st, o, a[0], a[1]))(_o)


@np_('reciprocal')
def _reciprocal(L, st, a, k):
    c = _arr(L, st, a[0])
    if c is None or c.kind != 'f':
        raise Unsupported('reciprocal')
    return L.binop(st, ast.Div(), F(Fraction(1)), a[0])


@np_('square')
def _sq(L, st, a, k):
    return L.binop(st, ast.Pow(), a[0], 2)


@reg('numpy.sqrt', 'math.sqrt')
def _sqrt(L, st, a, k):
    return L.np.emap(st, lambda x: fsqrt(toF(x)), lambda q: 'f', a[0])


@reg('numpy.hypot', 'math.hypot')
def _hypot(L, st, a, k):
    return L.np.emap(st, lambda x, y: fsqrt(T.fadd(T.fmul(toF(x), toF(x)), T.fmul(toF(y), toF(y)))), lambda p, q: 'f', a[0], a[1])


@reg('numpy.cos', 'math.cos')
def _cosf(L, st, a, k):
    return L.np.emap(st, lambda x: fcos(toF(x)), lambda q: 'f', a[0])


@reg('numpy.sin', 'math.sin')
def _sinf(L, st, a, k):
    return L.np.emap(st, lambda x: F(libnp._sin(T.ZR(toF(x).v)), bor(toF(x).nan, toF(x).inf)), lambda q: 'f', a[0])


@reg('numpy.arctan2', 'math.atan2')
def _atan2f(L, st, a, k):
    def f(y, x):
        y, x = toF(y), toF(x)
        if y.inf is not False or x.inf is not False:
            raise Unsupported('arctan2 of infinite')
        return F(libnp._atan2(T.ZR(y.v), T.ZR(x.v)), bor(x.nan, y.nan))
    return L.np.emap(st, f, lambda p, q: 'f', a[0], a[1])


@reg('numpy.floor', 'math.floor')
def _floorf(L, st, a, k):
    return L.np.emap(st, lambda x: L.np.ffloor(toF(x)), lambda q: 'f', a[0])


@reg('numpy.ceil')
def _ceilf(L, st, a, k):
    return L.np.emap(st, lambda x: F(T.ZR(L.np.ceil_int(toF(x).v)) if isz(L.np.ceil_int(toF(x).v)) else Fraction(L.np.ceil_int(toF(x).v)), toF(x).nan, toF(x).inf),
                     lambda q: 'f', a[0])


@reg('math.ceil')
def _mceil(L, st, a, k):
    return L.np.ceil_int(toF(a[0]).v)


BUILTIN_FNS['math.floor'] = lambda L, st, a, k: L.np.floor_int(toF(a[0]).v)
BUILTIN_FNS['math.isnan'] = BUILTIN_FNS['numpy.isnan']


@np_('maximum', 'fmax')
def _maximum(L, st, a, k):
    return L.np.emap(st, lambda x, y: L.np.pair(x, y, True, False), V.join_kind, a[0], a[1])


@np_('minimum', 'fmin')
def _minimum(L, st, a, k):
    return L.np.emap(st, lambda x, y: L.np.pair(x, y, False, False), V.join_kind, a[0], a[1])


@np_('clip')
def _clip(L, st, a, k):
    lo, hi = opt(a, k, 1, 'a_min', k.get('min')), opt(a, k, 2, 'a_max', k.get('max'))
    r = a[0]
    if lo is not None:
        r = L.np.emap(st, lambda x, y: L.np.pair(x, y, True, False), V.join_kind, r, lo)
    if hi is not None:
        r = L.np.emap(st, lambda x, y: L.np.pair(x, y, False, False), V.join_kind, r, hi)
    return r


def nonzero(L, st, x):
    """positions of the true cells"""
    c = _arr(L, st, x)
    if c is None:
        return Opaque('nonzero')
    if len(c.shape) == 1:
        q = T.bound_int('q')
        n, sel = T.mk_filter(c.shape[0], q, L.np.cast('b', c.get((q,))))
        return (L.I.alloc(st, AVal((n,), 'i', lambda ix: sel(ix[0]))),)
    if len(c.shape) != 2 or st.loops:
        raise Unsupported('np.where of this shape')
    nm = T.REG.fresh('nz')
    row, col, rank = z3.Function(nm + 'row', IS, IS), z3.Function(nm + 'col', IS, IS), z3.Function(nm + 'rank', IS, IS, IS)
    N = z3.Int(nm + 'N')
    k, i, j = T.bound_int('k'), T.bound_int('i'), T.bound_int('j')
    mask = lambda i, j: Z(band(ile(0, i), ilt(i, c.shape[0]), ile(0, j), ilt(j, c.shape[1]), L.np.cast('b', c.get((i, j)))))
    st.assume(N >= 0)
    T.REG.forall([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(mask(row(k), col(k)), rank(row(k), col(k)) == k)),
                 triggers=[(nm + 'row', [(k, 0, 0)]), (nm + 'col', [(k, 0, 0)])])
    T.REG.forall([i, j], z3.Implies(mask(i, j), z3.And(0 <= rank(i, j), rank(i, j) < N, row(rank(i, j)) == i, col(rank(i, j)) == j)),
                 triggers=[(nm + 'rank', [(i, 0, 0), (j, 1, 0)])])
    T.REG.keyed.setdefault('nonzero', []).append((rank, mask, N))
    return (L.I.alloc(st, AVal((N,), 'i', lambda ix: row(Z(ix[0])))), L.I.alloc(st, AVal((N,), 'i', lambda ix: col(Z(ix[0])))))


@np_('where')
def _where(L, st, a, k):
    if len(a) == 1:
        return nonzero(L, st, a[0])
    return L.np.emap(st, lambda c, x, y: vite(L.np.cast('b', c), x, y), lambda c, x, y: V.join_kind(x, y), *a)


@np_('nan_to_num')
def _nan_to_num(L, st, a, k):
    v = toF(k.get('nan', 0))
    return L.np.emap(st, lambda x: fite(x.nan, v, x) if isinstance(x, F) else x, lambda q: q, a[0])


def _arr(L, st, v):
    c = L.I.content(st, v)
    if isinstance(c, AVal):
        return c
    if isinstance(c, Comp):
        return comp_array(L, c)
    if isinstance(c, Opaque):
        return None
    if is_num(c):
        return AVal((), V.kind_of(c), lambda idx: c)
    return seq_array(L, st, v) if not isinstance(c, LVal) else L.list_to_array(st, c)


def comp_array(L, c):
    raise Unsupported('reduction of a masked selection')


def _red(fn):
    def f(L, st, a, k):
        c = _arr(L, st, a[0])
        if c is None:
            return Opaque('np')
        ax = opt(a, k, 1, 'axis')
        r = fn(L, st, c, ax)
        if set(k) - {'axis', 'keepdims'}:
            raise Unsupported('reduction with ' + ', '.join(sorted(k)))
        if k.get('keepdims'):
            if not isinstance(ax, int):
                raise Unsupported('keepdims')
            ax %= len(c.shape)
            rc = L.I.content(st, r)
            if is_num(rc):
                return L.I.alloc(st, AVal((1,), V.kind_of(rc), lambda idx: rc))
            return L.I.alloc(st, AVal(rc.shape[:ax] + (1,) + rc.shape[ax:], rc.kind, lambda idx: rc.get(tuple(idx[:ax]) + tuple(idx[ax + 1:]))))
        return r
    return f


BUILTIN_FNS['numpy.sum'] = _red(lambda L, st, c, ax: L.np.sum(st, c, ax))
BUILTIN_FNS['numpy.nansum'] = _red(lambda L, st, c, ax: L.np.sum(st, c, ax, True))
BUILTIN_FNS['numpy.any'] = _red(lambda L, st, c, ax: L.np.quant(st, c, ax, True))
BUILTIN_FNS['numpy.all'] = _red(lambda L, st, c, ax: L.np.quant(st, c, ax, False))
BUILTIN_FNS['numpy.count_nonzero'] = _red(lambda L, st, c, ax: L.np.sum(st, AVal(c.shape, 'b', lambda idx: L.np.cast('b', c.get(idx))), ax))
for _n in ('max', 'amax'):
    BUILTIN_FNS['numpy.' + _n] = _red(lambda L, st, c, ax: L.np.extremum(st, c, ax, True))
for _n in ('min', 'amin'):
    BUILTIN_FNS['numpy.' + _n] = _red(lambda L, st, c, ax: L.np.extremum(st, c, ax, False))
BUILTIN_FNS['numpy.nanmax'] = _red(lambda L, st, c, ax: L.np.extremum(st, c, ax, True, True))
BUILTIN_FNS['numpy.nanmin'] = _red(lambda L, st, c, ax: L.np.extremum(st, c, ax, False, True))


def _stat(base, skip):
    def f(L, st, c, ax):
        if ax is not None:
            raise Unsupported(base + ' along an axis')
        return L.np.stat_sym(st, c, base, skip)
    return _red(f)


BUILTIN_FNS['numpy.mean'] = _stat('mean', False)
BUILTIN_FNS['numpy.nanmean'] = _stat('mean', True)
BUILTIN_FNS['numpy.median'] = _stat('median', False)
BUILTIN_FNS['numpy.nanmedian'] = _stat('median', True)


def _pct(skip):
    def f(L, st, a, k):
        c = _arr(L, st, a[0])
        p = L.I.content(st, opt(a, k, 1, 'q'))
        if c is None or isinstance(p, Opaque):
            return Opaque('percentile')
        if not is_num(p):
            raise Unsupported('percentile of several levels')
        L.I.require(st, band(T.rle(0, toF(p).v), T.rle(toF(p).v, 100)), 'ValueError', 'percentile range')
        m = L.np.stat_sym(st, c, 'percentile', skip)
        hi = L.np.extremum(st, c, None, True, skip)
        hi = toF(hi)
        full = band(T.req(toF(p).v, Fraction(100)), bnot(m.nan))
        if full is not False:
            m = F(ite(full, hi.v, m.v), m.nan)
        if not st.loops:
            from .interp import Event
            st.events.append(Event('percentile', {'q': toF(p), 'm': m, 'data': c}))
        return m
    return f


BUILTIN_FNS['numpy.percentile'] = _pct(False)
BUILTIN_FNS['numpy.nanpercentile'] = _pct(True)


@np_('cumsum')
def _cumsum(L, st, a, k):
    c = _arr(L, st, a[0])
    if c is None:
        return Opaque('cumsum')
    return L.np.cumsum(st, c)


@np_('searchsorted')
def _ss(L, st, a, k):
    c, side = _arr(L, st, a[0]), opt(a, k, 2, 'side', 'left')
    v = L.I.content(st, opt(a, k, 1, 'v'))
    if c is None or isinstance(v, Opaque):
        return L.I.fresh(st, 'ss', IS)[0]
    return L.np.searchsorted(st, c, v, side)


@np_('argsort')
def _argsort(L, st, a, k):
    return L.np.argsort(st, _arr(L, st, a[0]))


@np_('errstate')
def _errstate(L, st, a, k):
    return Opaque('errstate')


@np_('argmin')
def _argmin(L, st, a, k):
    return L.np.argext(st, _arr(L, st, a[0]), False)


@np_('argmax')
def _argmax(L, st, a, k):
    return L.np.argext(st, _arr(L, st, a[0]), True)


@np_('nonzero')
def _nonzero(L, st, a, k):
    return nonzero(L, st, a[0])


@np_('nanargmax', 'nanargmin', 'unique', 'argwhere', 'flatnonzero', 'bincount', 'diff', 'histogram', 'outer')
def _unsup(L, st, a, k):
    raise Unsupported('numpy function outside the modelled subset')


# ---------------------------------------------------------------- random numbers
def draw(L, st, lo, hi, site='draw', closed=False):
    I = L.I
    from .interp import Event
    r, d = I.fresh(st, 'draw', R)
    lo, hi = toF(lo), toF(hi)
    g = band(bnot(lo.nan), bnot(hi.nan), bnot(lo.inf), bnot(hi.inf))
    L.np.assume_fresh(st, r, d, imp(band(g, T.rlt(lo.v, hi.v)), band(T.rle(lo.v, r), T.rlt(r, hi.v))))
    L.np.assume_fresh(st, r, d, imp(band(g, T.req(lo.v, hi.v)), T.req(r, lo.v)))
    st.events.append(Event('draw', {'lo': lo, 'hi': hi, 'r': F(r)}))
    return F(r, bnot(g) if g is not True else False)


@reg('numpy.random.uniform')
def _uniform(L, st, a, k):
    lo, hi = opt(a, k, 0, 'low', toF(0)), opt(a, k, 1, 'high', toF(1))
    if opt(a, k, 2, 'size') is not None:
        raise Unsupported('array of draws')
    lo, hi = L.I.content(st, lo), L.I.content(st, hi)
    return draw(L, st, lo, hi)


@reg('numpy.random.random', 'numpy.random.rand', 'numpy.random.random_sample')
def _random(L, st, a, k):
    if a or k:
        return Opaque('random array')
    return draw(L, st, 0, 1)


@reg('numpy.random.randint')
def _randint(L, st, a, k):
    from .interp import Event
    lo, hi = (0, a[0]) if len(a) == 1 and 'high' not in k else (opt(a, k, 0, 'low'), opt(a, k, 1, 'high'))
    if opt(a, k, 2, 'size') is not None:
        raise Unsupported('array of draws')
    L.I.require(st, ilt(lo, hi), 'ValueError', 'low >= high')
    r, d = L.I.fresh(st, 'randint', IS)
    L.np.assume_fresh(st, r, d, imp(ilt(lo, hi), band(ile(lo, r), ilt(r, hi))))
    st.events.append(Event('randint', {'lo': lo, 'hi': hi, 'r': r}))
    return r


@reg('numpy.random.seed')
def _seed(L, st, a, k):
    from .interp import Event
    st.events.append(Event('seed', {'v': L.I.content(st, a[0]) if a else None}))
    return None


# ---------------------------------------------------------------- warnings, files, opaque libraries
@reg('warnings.warn')
def _warn(L, st, a, k):
    from .interp import Event
    cat = opt(a, k, 1, 'category')
    st.events.append(Event('warn', {'msg': L.snap(st, a[0]), 'cat': cat.name if isinstance(cat, Builtin) else 'UserWarning'}))
    return None


@reg('warnings.catch_warnings', 'warnings.simplefilter', 'warnings.filterwarnings')
def _wctl(L, st, a, k):
    return Opaque('warnings')


@reg('json.dump')
def _dump(L, st, a, k):
    from .interp import Event
    f = opt(a, k, 1, 'fp')
    st.events.append(Event('json', {'v': a[0], 'snap': L.I.content(st, a[0]), 'file': f.tag if isinstance(f, Opaque) else None}))
    return None


@reg('json.dumps')
def _dumps(L, st, a, k):
    raise Unsupported('json.dumps')


def _op(tag):
    return lambda L, st, a, k: Opaque(tag)


for _n in ('os.getcwd', 'os.path.join', 'os.path.basename', 'os.path.abspath', 'os.path.dirname'):
    BUILTIN_FNS[_n] = lambda L, st, a, k: SStr(['path'])
for _n in ('os.makedirs', 'os.mkdir', 'os.remove'):
    BUILTIN_FNS[_n] = lambda L, st, a, k: None
for _n in ('os.path.exists', 'os.path.isdir', 'os.path.isfile'):
    BUILTIN_FNS[_n] = lambda L, st, a, k: L.I.fresh(st, 'exists', z3.BoolSort())[0]


@reg('os.listdir')
def _listdir(L, st, a, k):
    n, d = L.I.fresh(st, 'files', IS)
    L.np.assume_fresh(st, n, d, ile(0, n))
    return L.I.alloc(st, LVal(n, lambda i: SStr(['file'])))


@reg('numpy.loadtxt', 'numpy.load')
def _load(L, st, a, k):
    return Opaque('loaded')


OPAQUE_FNS = {}
for _n in ('append', 'sort', 'gradient', 'savetxt', 'save', 'savez', 'interp'):
    OPAQUE_FNS['numpy.' + _n] = _op('np.' + _n)
OPAQUE_FNS['scipy.interpolate.interp1d'] = _op('interp1d')
OPAQUE_FNS['scipy.stats.gaussian_kde'] = _op('kde')
OPAQUE_FNS['os.path.getsize'] = _op('os')


@reg('scipy.ndimage.gaussian_filter')
def _gauss(L, st, a, k):
    """assumed: values of a Gaussian-smoothed NaN-free array lie between the least and the greatest input value"""
    c = L.I.content(st, a[0])
    lo = toF(L.np.extremum(st, c, None, False))
    hi = toF(L.np.extremum(st, c, None, True))
    nm = T.REG.fresh('gauss')
    lp = list(st.loops)
    d = z3.Function(nm, *([IS] * (len(lp) + len(c.shape)) + [R]))
    qs = [T.bound_int('g') for _ in c.shape]
    x = d(*lp, *qs)
    T.REG.forall(lp + qs, band(T.rle(lo.v, x), T.rle(x, hi.v)), triggers=[(nm, [(v, i, 0) for i, v in enumerate(lp + qs)])])
    return L.I.alloc(st, AVal(c.shape, 'f', lambda idx: F(d(*lp, *[Z(i) for i in idx]), bor(lo.nan, hi.nan))))


@reg('scipy.spatial.cKDTree', 'scipy.spatial.KDTree', 'scipy.interpolate.NearestNDInterpolator')
def _kd(L, st, a, k):
    raise Unsupported('spatial index outside a contract')


@reg('multiprocessing.Pool')
def _pool(L, st, a, k):
    return Opaque('Pool')


@reg('logging.StreamHandler', 'logging.Formatter', 'logging.getLogger', 'logging.NullHandler')
def _log(L, st, a, k):
    return Opaque('logger')


# ---------------------------------------------------------------- methods
def method(L, st, obj, name, args, kw):
    I = L.I
    args = [I.force(a, st) for a in args]
    kw = {k: I.force(v, st) for k, v in kw.items()}
    c = I.content(st, obj)
    if isinstance(c, (AVal, Comp)):
        return arr_method(L, st, obj, c, name, args, kw)
    if isinstance(c, LVal):
        return list_method(L, st, obj, c, name, args, kw)
    if isinstance(c, DVal):
        return dict_method(L, st, obj, c, name, args, kw)
    if isinstance(c, (str, SStr)):
        return str_method(L, st, c, name, args, kw)
    if is_num(c):
        if name == 'astype':
            kd = L.np.dtype_kind(args[0])
            return L.np.cast(kd, c)
        if name in ('item', 'tolist', 'copy', 'max', 'min', 'sum', 'mean'):
            return c
        if name in ('any', 'all'):
            return I.truth(c, st)
    raise Unsupported('method %s' % name)


def arr_method(L, st, o, c, name, a, k):
    I = L.I
    if isinstance(c, Comp):
        raise Unsupported('method %s of a masked selection' % name)
    if name in ('copy',):
        return I.alloc(st, AVal(c.shape, c.kind, c.get, c.inv, c.note))
    if name == 'astype':
        kd = L.np.dtype_kind(opt(a, k, 0, 'dtype'))
        return I.alloc(st, AVal(c.shape, kd, lambda idx: L.np.cast(kd, c.get(idx)), c.inv))
    if name in ('sum', 'min', 'max', 'any', 'all', 'mean'):
        return BUILTIN_FNS['numpy.' + name](L, st, [c] + a, k)
    if name in ('ravel', 'flatten'):
        return L.np.ravel(st, c) if len(c.shape) != 1 else I.alloc(st, AVal(c.shape, c.kind, c.get, c.inv, c.note))
    if name == 'reshape':
        v = a[0] if len(a) == 1 else tuple(a)
        return I.alloc(st, L.np.reshape_val(st, c, v))
    if name == 'tolist':
        return I.alloc(st, to_nested(L, st, c, c.shape, ()))
    if name == 'searchsorted':
        return L.np.searchsorted(st, c, I.content(st, a[0]), opt(a, k, 1, 'side', 'left'))
    if name == 'transpose':
        return L.np.transpose(st, c)
    if name == 'cumsum':
        return L.np.cumsum(st, c)
    if name == 'argsort':
        return L.np.argsort(st, c)
    if name == 'clip':
        return _clip(L, st, [c] + a, k)
    if name == 'fill':
        v = L.cast_store(c.kind, I.content(st, a[0]))
        L.write_array(st, o, AVal(c.shape, c.kind, lambda idx: v))
        return None
    if name == 'nonzero':
        return nonzero(L, st, o)
    if name == 'item' and not a:
        for d in c.shape:
            I.require(st, ieq(d, 1), 'ValueError', 'item')
        return c.get((0,) * len(c.shape))
    if name == 'repeat':
        return _repeat(L, st, [c] + a, k)
    if name == 'round':
        return _round(L, st, [c], {})
    raise Unsupported('array method ' + name)


def to_nested(L, st, c, shape, pre):
    n = shape[0]
    if len(shape) == 1:
        if not isz(n):
            return LVal(None, items=[c.get(pre + (q,)) for q in range(n)])
        return LVal(n, lambda i: c.get(pre + (i,)))
    if not isz(n) and not isz(shape[1]):
        return LVal(None, items=[L.I.alloc(st, to_nested(L, st, c, shape[1:], pre + (q,))) for q in range(n)])
    return LVal(n, lambda i: to_nested(L, st, c, shape[1:], pre + (i,)))


def list_method(L, st, o, c, name, a, k):
    I = L.I
    if name == 'append':
        L.append(st, o, a[0])
        return None
    if name == 'extend':
        oc = I.content(st, a[0])
        if isinstance(a[0], IterV) and a[0].eff is not None:
            a = [map_list(L, st, a[0])]
            oc = I.content(st, a[0])
        if isinstance(oc, LVal):
            new = L.concat(st, o, c, a[0], oc)
        else:
            it = I.to_iter(a[0], st)
            if not isz(it.len):
                lst = LVal(None, items=[it.fn(i, st) for i in range(it.len)])
            else:
                lst = iter_list(L, st, it)
            new = L.concat(st, o, c, I.alloc(st, lst), lst)
        L.update_list(st, o, new)
        return None
    if name == 'copy':
        return I.alloc(st, LVal(c.len, c._fn, c.items))
    if name == 'clear':
        L.update_list(st, o, LVal(None, items=[]))
        return None
    if name == 'pop':
        i = L.norm_index(st, a[0] if a else -1, c.len)
        e = L.list_elem(st, o, c, i)
        if isinstance(e, Path):
            e = I.alloc(st, I.content(st, e))
        if c.items is not None and not isz(i):
            L.update_list(st, o, LVal(None, items=c.items[:i] + c.items[i + 1:]))
        else:
            L.update_list(st, o, LVal(isub(c.len, 1), lambda q: vite(ilt(q, i), c.at(q), c.at(iadd(q, 1)))))
        return e
    if name == 'insert':
        i = a[0]
        if c.items is not None and isinstance(i, int) and i >= 0:
            L.update_list(st, o, LVal(None, items=c.items[:i] + [a[1]] + c.items[i:]))
            return None
        if isinstance(i, int) and i == 0:
            e = L.embed(st, a[1])
            L.update_list(st, o, LVal(iadd(c.len, 1), lambda q: vite(ieq(q, 0), e, c.at(isub(q, 1)))))
            return None
    if name == 'count' and c.items is not None:
        r = 0
        for x in c.items:
            r = iadd(r, as_int(L.equal(st, x, a[0])))
        return r
    raise Unsupported('list method ' + name)


def dict_method(L, st, o, c, name, a, k):
    I = L.I
    ks = L.dict_keys(st, o) if name in ('keys', 'values', 'items') else None
    c = I.content(st, o)
    if name == 'keys':
        return IterV(len(ks), lambda i, s: ks[i], 'view')
    if name == 'values':
        vs = [I.force(c.d[x], st) for x in ks]
        return IterV(len(ks), lambda i, s: vs[i], 'view')
    if name == 'items':
        vs = [(x, I.force(c.d[x], st)) for x in ks]
        return IterV(len(ks), lambda i, s: vs[i], 'view')
    if name == 'get':
        if isinstance(a[0], SName):
            x = L.key_of(st, c, a[0])
            if x is None:
                return a[1] if len(a) > 1 else None
            a = [x] + list(a[1:])
        v = I.force(c.d.get(a[0], UNDEF), st)
        if v is UNDEF:
            return a[1] if len(a) > 1 else None
        return v
    if name == 'update':
        src = I.content(st, a[0]) if a else DVal({})
        d = dict(c.d)
        for x, v in list(src.d.items()) + list(k.items()):
            v = I.force(v, st)
            if v is not UNDEF:
                d[x] = v
        L.I.writable(o.cid)
        st.heap[o.cid] = DVal(d)
        return None
    if name == 'copy':
        return I.alloc(st, DVal(c.d))
    if name == 'setdefault':
        v = I.force(c.d.get(a[0], UNDEF), st)
        if v is not UNDEF:
            return v
        v = a[1] if len(a) > 1 else None
        L.I.writable(o.cid)
        st.heap[o.cid] = DVal({**c.d, a[0]: v})
        return v
    if name == 'pop':
        v = I.force(c.d.get(a[0], UNDEF), st)
        if v is UNDEF:
            if len(a) > 1:
                return a[1]
            raise_('KeyError', a[0])
        L.I.writable(o.cid)
        st.heap[o.cid] = DVal({x: y for x, y in c.d.items() if x != a[0]})
        return v
    raise Unsupported('dict method ' + name)


def str_method(L, st, c, name, a, k):
    if isinstance(c, SName):
        r = c.method(name, a)
        if r is None:
            raise Unsupported('method %s of a symbolic name' % name)
        return r
    if isinstance(c, str) and all(isinstance(x, str) for x in a) and name not in ('join', 'format', 'split'):
        return getattr(c, name)(*a)
    f = L.I.ext.get('str.' + name)
    if f is not None and isinstance(c, SStr):
        return f(L.I, st, c, *a)
    if name in ('startswith', 'endswith'):
        return L.I.fresh(st, 'str', z3.BoolSort())[0]
    if name in ('upper', 'lower'):
        return SStr(['%s(' % name] + list(c.parts) + [')'])
    return SStr([name])


def opaque(L, st, fn, a, k):
    t = fn.tag
    f = L.I.ext.get(t)
    if f is not None:
        return f(L.I, st, a, k)
    if t.split('.')[0] == 'logger' or t.startswith('logger'):
        return None
    if t.endswith('kdtree'):
        raise Unsupported('kd tree')
    return Opaque(t + '()')
