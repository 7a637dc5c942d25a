"""Scalar terms, axiom registry and the query engine of pyvc.

Scalars of the verified program are represented as
  int   : Python int or z3 Int term                (mathematical integers)
  bool  : Python bool or z3 Bool term
  float : F(v, nan, inf)                           (extended reals, no signed zero, no rounding)
Booleans nan/inf of F are folded to Python constants wherever possible.
"""
import hashlib, time, os
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Unsupported(Exception):
    """The source has left the subset pyvc understands."""


def isz(x):
    return isinstance(x, z3.ExprRef)


def Z(x):
    """scalar -> z3 term"""
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    raise Unsupported('not a scalar: %r' % (x,))


def ZR(x):
    """scalar -> z3 Real term"""
    if isz(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    return Z(Fraction(x))


def _junct(xs, unit, isop):
    """operands of a conjunction (unit True) or disjunction (unit False), or None when it folds to not unit"""
    out, seen, neg = [], {}, {}
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is unit:
            continue
        if x is (not unit):
            return None
        if z3.is_true(x):
            if unit:
                continue
            return None
        if z3.is_false(x):
            if not unit:
                continue
            return None
        if isop(x) and x.num_args() <= 12:
            stack.extend(reversed(x.children()))
            continue
        i = x.get_id()
        if i in seen:
            continue
        if i in neg:
            return None
        if z3.is_not(x):
            j = x.arg(0).get_id()
            if j in seen:
                return None
            neg[j] = x
        seen[i] = x
        out.append(x)
    return out


def band(*xs):
    out = _junct(xs, True, z3.is_and)
    if out is None:
        return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = _junct(xs, False, z3.is_or)
    if out is None:
        return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def imp(a, b):
    return bor(bnot(a), b)


def same(a, b):
    """syntactic equality of scalars"""
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return type(a) == type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)


def beq(a, b):
    """boolean equality"""
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a.eq(b):
        return True
    return a == b


def ite(c, a, b):
    """ite over scalars of the same sort (int/bool/real), folding"""
    if c is True or (isz(c) and z3.is_true(c)):
        return a
    if c is False or (isz(c) and z3.is_false(c)):
        return b
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        if a is True:
            return bor(c, b)
        if a is False:
            return band(bnot(c), b)
        if b is True:
            return bor(bnot(c), a)
        return band(c, a)
    za, zb = Z(a), Z(b)
    if za.sort() != zb.sort():
        za, zb = ZR(a), ZR(b)
    # ite(c, x, ite(c, _, y)) -> ite(c, x, y)
    if z3.is_app_of(zb, z3.Z3_OP_ITE) and zb.arg(0).eq(c):
        zb = zb.arg(2)
    if z3.is_app_of(za, z3.Z3_OP_ITE) and za.arg(0).eq(c):
        za = za.arg(1)
    return z3.If(c, za, zb)


# ---------------------------------------------------------------- integers
_linc = {}


def _num(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        return f
    return None


def simp(x):
    if not isz(x):
        return x
    r = z3.simplify(x)
    n = _num(r)
    if n is not None:
        return n
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def isimp(x):
    """linear simplification of an int term to a canonical small form"""
    if not isz(x):
        return x
    k = x.get_id()
    if k in _linc:
        return _linc[k][1]
    r = z3.simplify(x)
    n = _num(r)
    r = n if n is not None else r
    _linc[k] = (x, r)
    return r


def iadd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(b) and b == 0:
        return a
    if not isz(a) and a == 0:
        return b
    return isimp(Z(a) + Z(b))


def isub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return 0
    return isimp(Z(a) - Z(b))


def imul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    return isimp(Z(a) * Z(b))


def _cmp_fold(a, b):
    d = isub(a, b)
    return d if not isz(d) else None


def ilt(a, b):
    d = _cmp_fold(a, b)
    if d is not None:
        return d < 0
    return Z(a) < Z(b)


def ile(a, b):
    d = _cmp_fold(a, b)
    if d is not None:
        return d <= 0
    return Z(a) <= Z(b)


def ieq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    d = _cmp_fold(a, b)
    if d is not None:
        return d == 0
    return Z(a) == Z(b)


def imax(a, b):
    return ite(ile(a, b), b, a)


def imin(a, b):
    return ite(ile(a, b), a, b)


# ---------------------------------------------------------------- reals
def _rc(x):
    return not isz(x)


def radd(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) + Fraction(b)
    if _rc(a) and a == 0:
        return b
    if _rc(b) and b == 0:
        return a
    return ZR(a) + ZR(b)


def rsub(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) - Fraction(b)
    if _rc(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0)
    return ZR(a) - ZR(b)


def rmul(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if _rc(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return ZR(a) * ZR(b)


def rdiv(a, b):
    """b known nonzero (or value irrelevant)"""
    if _rc(b):
        if b == 0:
            return Fraction(0)
        if _rc(a):
            return Fraction(a) / Fraction(b)
        if b == 1:
            return a
        return ZR(a) * Z(Fraction(1) / Fraction(b))
    if _rc(a) and a == 0:
        return Fraction(0)
    return ZR(a) / ZR(b)


def rneg(a):
    return rsub(Fraction(0), a)


def rlt(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) < Fraction(b)
    if isz(a) and isz(b) and a.eq(b):
        return False
    return ZR(a) < ZR(b)


def rle(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) <= Fraction(b)
    if isz(a) and isz(b) and a.eq(b):
        return True
    return ZR(a) <= ZR(b)


def req(a, b):
    if _rc(a) and _rc(b):
        return Fraction(a) == Fraction(b)
    if isz(a) and isz(b) and a.eq(b):
        return True
    return ZR(a) == ZR(b)


class F:
    """extended real"""
    __slots__ = ('v', 'nan', 'inf')

    def __init__(self, v, nan=False, inf=False):
        if isinstance(v, int) and not isinstance(v, bool):
            v = Fraction(v)
        self.v = v
        self.nan = nan
        self.inf = inf

    def __repr__(self):
        return 'F(%s,%s,%s)' % (self.v, self.nan, self.inf)

    def fin(self):
        return self.nan is False and self.inf is False


NAN = F(Fraction(0), True, False)
PINF = F(Fraction(1), False, True)
NINF = F(Fraction(-1), False, True)


def toF(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return F(Fraction(int(x)))
    if isinstance(x, (int, Fraction)):
        return F(Fraction(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float('inf'):
            return PINF
        if x == float('-inf'):
            return NINF
        return F(Fraction(repr(x)))
    if isz(x):
        if z3.is_bool(x):
            return F(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
        return F(ZR(x))
    raise Unsupported('toF %r' % (x,))


def fite(c, a, b):
    return F(ite(c, a.v, b.v), ite(c, a.nan, b.nan), ite(c, a.inf, b.inf))


def fneg(a):
    return F(rneg(a.v), a.nan, a.inf)


def fadd(a, b):
    if a.inf is False and b.inf is False:
        return F(radd(a.v, b.v), bor(a.nan, b.nan), False)
    opp = bnot(beq(rlt(Fraction(0), a.v), rlt(Fraction(0), b.v)))
    nan = bor(a.nan, b.nan, band(a.inf, b.inf, opp))
    inf = band(bor(a.inf, b.inf), bnot(nan))
    v = ite(a.inf, a.v, ite(b.inf, b.v, radd(a.v, b.v)))
    return F(v, nan, inf)


def fsub(a, b):
    if a.inf is False and b.inf is False:
        return F(rsub(a.v, b.v), bor(a.nan, b.nan), False)
    return fadd(a, fneg(b))


def fsign(v):
    return ite(rlt(v, Fraction(0)), Fraction(-1), ite(req(v, Fraction(0)), Fraction(0), Fraction(1)))


def fmul(a, b):
    if a.inf is False and b.inf is False:
        return F(rmul(a.v, b.v), bor(a.nan, b.nan), False)
    az, bz = req(a.v, Fraction(0)), req(b.v, Fraction(0))
    nan = bor(a.nan, b.nan, band(a.inf, bz, bnot(b.inf)), band(b.inf, az, bnot(a.inf)))
    inf = band(bor(a.inf, b.inf), bnot(nan))
    v = ite(inf, rmul(fsign(a.v), fsign(b.v)), rmul(a.v, b.v))
    return F(v, nan, inf)


def fdiv(a, b):
    """IEEE/numpy division (zero divisor gives nan or inf)"""
    if b.fin() and _rc(b.v) and b.v != 0 and a.inf is False:
        return F(rdiv(a.v, b.v), a.nan, False)
    bz = band(req(b.v, Fraction(0)), bnot(b.inf))
    az = band(req(a.v, Fraction(0)), bnot(a.inf))
    nan = bor(a.nan, b.nan, band(bz, az), band(a.inf, b.inf))
    inf = band(bor(a.inf, bz), bnot(nan))
    v = ite(inf, ite(bz, fsign(a.v), rmul(fsign(a.v), fsign(b.v))),
            ite(b.inf, Fraction(0), rdiv(a.v, b.v)))
    return F(v, nan, inf)


def flt(a, b):
    nn = band(bnot(a.nan), bnot(b.nan))
    if a.inf is False and b.inf is False:
        return band(nn, rlt(a.v, b.v))
    neg, pos = rlt(a.v, Fraction(0)), rlt(Fraction(0), b.v)
    return band(nn, ite(a.inf, ite(b.inf, band(neg, pos), neg), ite(b.inf, pos, rlt(a.v, b.v))))


def feq(a, b):
    nn = band(bnot(a.nan), bnot(b.nan))
    if a.inf is False and b.inf is False:
        return band(nn, req(a.v, b.v))
    ssame = beq(rlt(Fraction(0), a.v), rlt(Fraction(0), b.v))
    return band(nn, ite(band(a.inf, b.inf), ssame, band(bnot(a.inf), bnot(b.inf), req(a.v, b.v))))


def fle(a, b):
    if a.inf is False and b.inf is False:
        return band(bnot(a.nan), bnot(b.nan), rle(a.v, b.v))
    return bor(flt(a, b), feq(a, b))


def fident(a, b):
    """identical as extended reals (NaN is identical to NaN)"""
    return band(beq(a.nan, b.nan),
                imp(bnot(a.nan), band(beq(a.inf, b.inf),
                                      ite(a.inf, beq(rlt(Fraction(0), a.v), rlt(Fraction(0), b.v)), req(a.v, b.v)))))


def fabs(a):
    return F(ite(rlt(a.v, Fraction(0)), rneg(a.v), a.v), a.nan, a.inf)


def ffinite(a):
    return band(bnot(a.nan), bnot(a.inf))


# ---------------------------------------------------------------- symbols and axioms
class Registry:
    """function symbols with axiom schemas instantiated at query time"""

    def __init__(self):
        self.ax = {}        # decl name -> list of callables(args)->[Bool]
        self.pairs = {}     # decl name -> family object with pair lemmas
        self.n = 0
        self.perms = {}     # permutation decl name -> n (bijection of 0..n-1)
        self.keyed = {}     # oracle key -> decl
        self.sums = {}      # name -> SumSym
        self.sumkeys = {}
        self.witness = {}
        self.sumfam = {}
        self.log = []
        self.facts = []     # closed facts added to every query
        self.ords = {}

    def fresh(self, base='v'):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def named(self, base):
        """a new name that is the same in every pass over an enclosing loop body (the counters are part of the snapshot)"""
        n = self.ords.get(base, 0)
        self.ords[base] = n + 1
        return '%s!%d' % (base, n)

    def snapshot(self):
        return {k: list(v) for k, v in self.ax.items()}, list(self.facts), dict(self.ords)

    def restore(self, snap):
        self.ax, self.facts, self.ords = snap

    def axiom(self, decl, fn):
        self.ax.setdefault(decl.name(), []).append(fn)

    def forall(self, vars, formula, triggers=None, name=None):
        """assume: for all integer vars: formula. Instantiated on matching applications."""
        if formula is True:
            return
        zf = Z(formula)
        if not vars:
            self.facts.append(zf)
            return
        trs = triggers if triggers is not None else auto_triggers(vars, zf) or auto_triggers(vars, zf, _match_lin)
        for tr in trs:
            def inst(*args, tr=tr, zf=zf):
                sub = []
                for c, pos, off in tr[1]:
                    sub.append((c, off[1] - args[pos] if isinstance(off, tuple) and off[0] == '-' else args[pos] - off[1] if isinstance(off, tuple) else args[pos] if off == 0 else args[pos] - off))
                return [z3.substitute(zf, *sub)]
            self.ax.setdefault(tr[0], []).append(inst)
        if not trs:
            raise Unsupported('no trigger for assumed universal %s' % zf)


def _match_arg(a, v):
    if a.eq(v):
        return 0
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2:
        x, y = a.children()
        if x.eq(v) and z3.is_int_value(y):
            return y.as_long()
        if y.eq(v) and z3.is_int_value(x):
            return x.as_long()
    return None


def _match_lin(a, v):
    """a = e + v or e - v, where e has no variable: the sign and e"""
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD):
        return None
    hit, rest = [], []
    for x in a.children():
        neg = z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == -1
        if x.eq(v):
            hit.append('+')
        elif neg and x.arg(1).eq(v):
            hit.append('-')
        else:
            rest.append(x)
    if len(hit) != 1 or any(_has(x, v) for x in rest):
        return None
    return hit[0], (z3.Sum(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0))


def _has(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if x.eq(v):
                return True
            todo += x.children()
    return False


def auto_triggers(vars, zf, match=_match_arg):
    seen = set()
    stack = [zf]
    out = {}
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                ch = x.children()
                m = []
                for v in vars:
                    for p, c in enumerate(ch):
                        o = match(c, v)
                        if o is not None:
                            m.append((v, p, o))
                            break
                if len(m) == len(vars):
                    if match is _match_lin and any(_has(o[1], u) for _, _, o in m for u in vars):
                        continue
                    key = (x.decl().name(), tuple((v.get_id(), p, str(o)) for v, p, o in m))
                    out[key] = (x.decl().name(), m)
            stack.extend(x.children())
    return list(out.values())


KEEP = []


REG = Registry()


def reset_registry():
    global REG
    REG.__init__()
    _linc.clear()
    _freec.clear()


def const(base, sort):
    return z3.Const(REG.fresh(base), sort)


def fint(base='i'):
    return z3.Int(REG.fresh(base))


def freal(base='r'):
    return z3.Real(REG.fresh(base))


def fbool(base='b'):
    return z3.Bool(REG.fresh(base))


_freec = {}


def free_consts(t):
    """set of uninterpreted 0-ary constants and of applied uninterpreted decl names in t (memoised on DAG)"""
    root = t.get_id()
    if root in _freec:
        return _freec[root][1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x)
            else:
                stack.extend(x.children())
    _freec[root] = (t, out)
    return out


def mentions(t, c):
    """does term t mention constant / function decl c"""
    if not isz(t):
        return False
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if isz(c) and x.eq(c):
                    return True
            else:
                if not isz(c) and x.decl().eq(c):
                    return True
                stack.extend(x.children())
    return False


def subst(t, pairs):
    if not isz(t):
        return t
    ps = [(Z(a), Z(b)) for a, b in pairs]
    ps = [(a, b) for a, b in ps if not a.eq(b)]
    if not ps:
        return t
    r = z3.substitute(t, *ps)
    return fold(r)


def fold(r):
    n = _num(r)
    if n is not None:
        return n if z3.is_int_value(r) else Fraction(n)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def rewrite(t, fmap):
    """replace applications f(args) of the declarations in fmap (name -> fn(args) -> scalar) bottom-up"""
    if not isz(t):
        return t
    memo = {}

    def go(root):
        stack = [root]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            if not z3.is_app(x):
                memo[i] = x
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            nc = [memo[c.get_id()] for c in ch]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in fmap:
                r = fmap[x.decl().name()]([fold(c) for c in nc])
                r = Z(r) if not (z3.is_real(x)) else ZR(r)
                memo[i] = r
            elif all(a.eq(b) for a, b in zip(ch, nc)):
                memo[i] = x
            else:
                memo[i] = z3.substitute(x, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if False else _reapp(x, nc)
        return memo[root.get_id()]
    return fold(go(t))


def _reapp(x, nc):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return Z(band(*[fold(c) for c in nc]))
    if k == z3.Z3_OP_OR:
        return Z(bor(*[fold(c) for c in nc]))
    if k == z3.Z3_OP_NOT:
        return Z(bnot(fold(nc[0])))
    if k == z3.Z3_OP_ITE:
        r = ite(fold(nc[0]), fold(nc[1]), fold(nc[2]))
        return ZR(r) if z3.is_real(x) else Z(r)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(nc) if len(nc) > 1 else nc[0]
    if k == z3.Z3_OP_MUL:
        return z3.Product(nc) if len(nc) > 1 else nc[0]
    if k in _CMP and len(nc) == 2 and z3.is_int(nc[0]):
        r = _CMP[k](fold(nc[0]), fold(nc[1]))
        if not isz(r):
            return Z(r)
    return x.decl()(*nc)


_REFOLD = {}


def refold(t):
    """t with integer comparisons and conditionals that have become trivial folded away"""
    if not isz(t):
        return t

    def go(x):
        c = _REFOLD.get(x.get_id())
        if c is not None:
            return c[1]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = x.children()
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = go(ch[0])
                if z3.is_true(c):
                    r = go(ch[1])
                elif z3.is_false(c):
                    r = go(ch[2])
                else:
                    r = _reapp(x, [c, go(ch[1]), go(ch[2])])
            else:
                nc = [go(c) for c in ch]
                if k in _CMP or any(not a.eq(b) for a, b in zip(ch, nc)):
                    r = _reapp(x, nc)
        _REFOLD[x.get_id()] = (x, r)
        return r
    return fold(go(t))


_CMP = {z3.Z3_OP_LE: lambda a, b: ile(a, b), z3.Z3_OP_LT: lambda a, b: ilt(a, b), z3.Z3_OP_GE: lambda a, b: ile(b, a),
        z3.Z3_OP_GT: lambda a, b: ilt(b, a), z3.Z3_OP_EQ: lambda a, b: ieq(a, b)}


def mentions_any(t, names):
    """does t mention an uninterpreted function or constant whose name is in names"""
    if not isz(t):
        return False
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            stack.extend(x.children())
    return False


def apps_of(t, names):
    if not isz(t):
        return []
    seen = set()
    stack = [t]
    out = []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out.append(x)
            stack.extend(x.children())
    return out


# ---------------------------------------------------------------- Sum symbols
# Index-like constants (created by the engine as bound variables) become parameters of a sum symbol, so that
# substituting them later is ordinary substitution into the arguments.
BOUND = {}


def bound_int(base='k'):
    c = z3.Int(REG.fresh(base))
    BOUND[c.get_id()] = c
    return c


def is_bound(c):
    return c.get_id() in BOUND


def _within(t, lo, hi):
    """an integer term that syntactically lies in [lo, hi] (hi None: unbounded above)"""
    if not isz(t):
        return t >= lo and (hi is None or t <= hi)
    k = _num(t)
    if k is not None:
        return k >= lo and (hi is None or k <= hi)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return _within(t.arg(1), lo, hi) and _within(t.arg(2), lo, hi)
    if hi is None and lo == 0:
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            return all(_within(c, 0, None) for c in t.children())
        if z3.is_app(t) and t.decl().name() in REG.sums:
            return REG.sums[t.decl().name()].nonneg
    return False


class SumSym:
    def __init__(self, decl, params, q, body, kind):
        self.decl, self.params, self.q, self.body, self.kind = decl, params, q, body, kind
        self.is01 = kind == 'int' and _within(body, 0, 1)
        self.nonneg = kind == 'int' and _within(body, 0, None)

    def at(self, args, q):
        return subst(self.body, list(zip(self.params, args)) + [(self.q, q)])


def mk_sum(n, q, body, kind='real', factor=True):
    """Sum_{0<=q<n} body(q); body is a z3 real (or int) term or constant"""
    if not isz(n) and not isz(body):
        return body * max(n, 0)
    if not isz(body) and body == 0:
        return 0 if kind == 'int' else Fraction(0)
    zb = sum_norm(ZR(body) if kind == 'real' else Z(body))
    if not isz(zb):
        zb = ZR(zb) if kind == 'real' else Z(zb)
    if factor:
        r = _sum_rules(n, q, zb, kind)
        if r is not None:
            return r
    if factor and kind == 'real' and z3.is_app_of(zb, z3.Z3_OP_MUL):
        out = [c for c in zb.children() if not mentions(c, q)]
        if out and len(out) < zb.num_args():
            ins = [c for c in zb.children() if mentions(c, q)]
            return rmul(fold(z3.Product(out)) if len(out) > 1 else fold(out[0]), mk_sum(n, q, z3.Product(ins) if len(ins) > 1 else ins[0]))
    if factor and kind == 'real' and z3.is_app_of(zb, z3.Z3_OP_DIV) and not mentions(zb.arg(1), q) and mentions(zb.arg(0), q):
        return rdiv(mk_sum(n, q, zb.arg(0)), fold(zb.arg(1)))
    if not mentions(zb, q):
        nn = imax(0, n) if isz(n) else max(n, 0)
        return rmul(ZR(nn) if kind == 'real' else nn, zb) if kind == 'real' else imul(nn, zb)
    key = (zb.get_id(), q.get_id(), kind)
    if key in REG.sumkeys:
        sym, params = REG.sumkeys[key]
    else:
        # reuse a symbol whose body is the same up to the names of the bound variables and the order of commutative arguments
        params = _param_order(zb, q)
        ck = _ckey(zb, q, {})
        sym = None
        for s2 in REG.sumfam.setdefault((ck, kind, len(params)), []):
            mp = {a.get_id(): b for a, b in zip(s2.params, params)}
            mp[s2.q.get_id()] = q
            if _ceq(s2.body, zb, mp, s2.q, q, {}, {}, set()):
                sym = s2
                break
        if sym is None:
            name = REG.fresh('Sum' if kind == 'real' else 'Cnt')
            d = z3.Function(name, *([z3.IntSort()] * (1 + len(params)) + [z3.RealSort() if kind == 'real' else z3.IntSort()]))
            sym = SumSym(d, params, q, zb, kind)
            REG.sums[name] = sym
            REG.sumfam[(ck, kind, len(params))].append(sym)
        REG.sumkeys[key] = (sym, params)
        KEEP.append((zb, q))
    return sym.decl(Z(n), *params)


_COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT}


def _ckey(t, q, memo):
    """structural key of t up to the names of bound variables and the order of commutative arguments"""
    k = t.get_id()
    if k in memo:
        return memo[k]
    if t.eq(q):
        r = 'Q'
    elif is_bound(t):
        r = '?'
    elif not z3.is_app(t) or not t.num_args():
        r = t.sexpr()
    else:
        ch = [_ckey(c, q, memo) for c in t.children()]
        if t.decl().kind() in _COMM:
            ch.sort()
        r = hashlib.blake2b(('%s(%s)' % (t.decl().name(), ','.join(ch))).encode(), digest_size=12).hexdigest()
    memo[k] = r
    return r


def _ckids(t, q, memo):
    ch = t.children()
    if t.decl().kind() in _COMM:
        ch = sorted(ch, key=lambda c: _ckey(c, q, memo))
    return ch


def _param_order(t, q):
    """bound variables of t other than q, in the order of their first occurrence in the canonical argument order"""
    memo, seen, out = {}, set(), []

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if is_bound(x):
            if not x.eq(q):
                out.append(x)
            return
        if z3.is_app(x):
            for c in _ckids(x, q, memo):
                walk(c)
    walk(t)
    return out


def _ceq(a, b, mp, qa, qb, ma, mb, done):
    """a with its bound variables renamed by mp is b, up to the order of commutative arguments"""
    k = (a.get_id(), b.get_id())
    if k in done:
        return True
    if is_bound(a) or is_bound(b):
        return a.get_id() in mp and mp[a.get_id()].eq(b)
    if not a.sort().eq(b.sort()):
        return False
    if not z3.is_app(a) or not z3.is_app(b) or not a.num_args() or not b.num_args():
        return a.eq(b)
    if not a.decl().eq(b.decl()) or a.num_args() != b.num_args():
        return False
    if not all(_ceq(x, y, mp, qa, qb, ma, mb, done) for x, y in zip(_ckids(a, qa, ma), _ckids(b, qb, mb))):
        return False
    done.add(k)
    return True


def sum_norm(zb):
    """normal form of a summand, so that equal summands get the same symbol; P(Pinv(x)) = x for permutations (which are
    taken to be the identity outside their range)"""
    if REG.perms:
        while True:
            ps = []
            for a in apps_of(zb, set(REG.perms)):
                x = a.children()[-1]
                nm = a.decl().name()
                inv = nm[:-3] if nm.endswith('inv') else nm + 'inv'
                if z3.is_app(x) and x.decl().name() == inv and all(u.eq(v) for u, v in zip(a.children()[:-1], x.children()[:-1])):
                    ps.append((a, x.children()[-1]))
            if not ps:
                break
            zb = z3.substitute(zb, *ps)
    zb = z3.simplify(zb)
    if z3.is_app_of(zb, z3.Z3_OP_ITE) and _num_is(zb.arg(1)) and _num_is(zb.arg(2)):
        c = unit_prop(zb.arg(0))
        if c is not zb.arg(0):
            zb = z3.simplify(z3.If(c, zb.arg(1), zb.arg(2)))
    return zb


def unit_prop(c):
    """a conjunction with each conjunct simplified under the other ones (c itself when nothing changes)"""
    if not z3.is_and(c):
        return c
    lits = list(dict.fromkeys(conjuncts(c)))
    done = False
    while not done and len(lits) > 1:
        done = True
        for i, l in enumerate(lits):
            a, v = (l.arg(0), z3.BoolVal(False)) if z3.is_not(l) else (l, z3.BoolVal(True))
            for j, m in enumerate(lits):
                if i != j:
                    m2 = z3.simplify(z3.substitute(m, (a, v)))
                    if not m2.eq(m) and not m2.eq(z3.simplify(m)):
                        lits = [y for k, y in enumerate(lits) if k != j] + conjuncts(m2)
                        done = False
                        break
            if not done:
                break
    lits = [l for l in lits if not z3.is_true(l)]
    r = z3.And(lits) if len(lits) > 1 else lits[0] if lits else z3.BoolVal(True)
    return c if z3.simplify(r).eq(z3.simplify(c)) else r


def _sum_rules(n, q, zb, kind):
    """algebra of finite sums: conditionals free of q, a common part of both branches, reindexing along a permutation,
    counting an interval"""
    add = radd if kind == 'real' else iadd
    for at in _free_atoms(zb, q):
        for val in (True, False):
            z0 = z3.simplify(z3.substitute(zb, (at, z3.BoolVal(not val))))
            if _num_is(z0, 0):
                c = at if val else z3.Not(at)
                return ite(c, mk_sum(n, q, z3.simplify(z3.substitute(zb, (at, z3.BoolVal(val)))), kind), 0 if kind == 'int' else Fraction(0))
    if z3.is_app_of(zb, z3.Z3_OP_ITE):
        c, a, b = zb.children()
        if not mentions(c, q):
            return ite(c, mk_sum(n, q, a, kind), mk_sum(n, q, b, kind))
        ao = a.children() if z3.is_app_of(a, z3.Z3_OP_ADD) else [a]
        bo = b.children() if z3.is_app_of(b, z3.Z3_OP_ADD) else [b]
        com = [x for x in ao if not _num_is(x) and any(x.eq(y) for y in bo)]
        if com:
            def rest(l):
                l = list(l)
                for x in com:
                    for i, y in enumerate(l):
                        if y.eq(x):
                            del l[i]
                            break
                z = z3.RealVal(0) if kind == 'real' else z3.IntVal(0)
                return z3.Sum(l) if len(l) > 1 else (l[0] if l else z)
            x = z3.Sum(com) if len(com) > 1 else com[0]
            return add(mk_sum(n, q, x, kind), mk_sum(n, q, z3.If(c, rest(ao), rest(bo)), kind))
    if z3.is_app_of(zb, z3.Z3_OP_ADD):
        pm = [c for c in zb.children() if _only_perm(c, q, n) is not None]
        if pm and len(pm) < zb.num_args():
            oth = [c for c in zb.children() if not any(c is x or c.eq(x) for x in pm)]
            r = mk_sum(n, q, z3.Sum(oth) if len(oth) > 1 else oth[0], kind)
            for x in pm:
                r = add(r, mk_sum(n, q, x, kind))
            return r
    if kind == 'real' and z3.is_app_of(zb, z3.Z3_OP_TO_REAL):
        return ZR(mk_sum(n, q, zb.arg(0), 'int'))
    if kind == 'real' and z3.is_app_of(zb, z3.Z3_OP_ITE) and _num_is(zb.arg(1)) and _num_is(zb.arg(2)) and \
       all(float(_num(zb.arg(k))).is_integer() for k in (1, 2)):
        return ZR(mk_sum(n, q, z3.If(zb.arg(0), z3.IntVal(int(_num(zb.arg(1)))), z3.IntVal(int(_num(zb.arg(2))))), 'int'))
    p = _only_perm(zb, q, n)
    if p is not None:
        q2 = bound_int('p')
        return mk_sum(n, q2, subst(zb, [(p, q2)]), kind)
    r = _trim_range(n, q, zb, kind)
    if r is not None:
        return r
    if kind == 'int' and z3.is_app_of(zb, z3.Z3_OP_ITE):
        c = None
        if _num_is(zb.arg(1), 1) and _num_is(zb.arg(2), 0):
            c = conjuncts(zb.arg(0))
        elif _num_is(zb.arg(1), 0) and _num_is(zb.arg(2), 1):
            c = conjuncts(zb.arg(0), True)
        if c is not None:
            free = [x for x in c if not mentions(x, q)]
            dep = [x for x in c if mentions(x, q)]
            if free and dep:
                return ite(band(*free), mk_sum(n, q, z3.If(Z(band(*dep)), z3.IntVal(1), z3.IntVal(0)), 'int'), 0)
            return _count_interval(n, q, dep)
    return None


def _trim_range(n, q, zb, kind):
    """a summand that is zero outside lo <= q < n - k for constants lo, k: the sum over that range, shifted to start at 0"""
    lits, body = [], zb
    while z3.is_app_of(body, z3.Z3_OP_ITE):
        c, a, b = body.children()
        if _num_is(b, 0):
            lits += conjuncts(c)
            body = a
        elif _num_is(a, 0):
            lits += conjuncts(c, True)
            body = b
        else:
            break
    if not lits:
        return None
    lo, cut, rest, again = 0, 0, lits, True
    while again:
        again, left = False, []
        for x in rest:
            u = _q_bound(x, q)
            if u is None:
                left.append(x)
                continue
            op, v = u
            k, e = _num(Z(v)), _num(Z(fold(isub(v, n))))
            if op == '!=' and k is not None and k == lo:
                lo += 1
            elif op == '!=' and k is not None and k < lo:
                pass
            elif op == '!=' and e is not None and -e - 1 == cut:
                cut += 1
            elif op == '!=' and e is not None and -e - 1 < cut:
                pass
            elif op == '>=' and k is not None:
                lo = max(lo, int(k))
            elif op == '<' and e is not None:
                cut = max(cut, -int(e))
            else:
                left.append(x)
                continue
            again = True
        rest = left
    if not lo and not cut:
        return None
    for x in reversed(rest):
        body = z3.If(x, body, z3.RealVal(0) if kind == 'real' else z3.IntVal(0))
    if lo:
        body = subst(body, [(q, q + lo)])
    return mk_sum(imax(0, isub(n, lo + cut)), q, body, kind)


def _q_bound(x, q):
    """(op, v) with x == (q op v), op one of != >= <, v free of q; None for any other literal"""
    neg = False
    if z3.is_not(x):
        x, neg = x.arg(0), True
    k = x.decl().kind() if z3.is_app(x) else None
    if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(x.arg(0)) or not mentions(x, q):
        return None
    d = isub(fold(x.arg(0)), fold(x.arg(1)))
    r0 = subst(d, [(q, 0)])
    s = isub(subst(d, [(q, 1)]), r0)
    if isz(s) or s not in (1, -1) or mentions(r0, q) or same(isub(isub(d, r0), imul(s, q)), 0) is not True:
        return None
    v = fold(isub(0, r0)) if s == 1 else r0
    if k == z3.Z3_OP_EQ:
        return ('!=', v) if neg else None
    op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>'}[k]
    if neg:
        op = {'<=': '>', '>=': '<', '<': '>=', '>': '<='}[op]
    if s == -1:
        op = {'<=': '>=', '>=': '<=', '<': '>', '>': '<'}[op]
    if op == '<=':
        return '<', fold(iadd(v, 1))
    if op == '>':
        return '>=', fold(iadd(v, 1))
    return op, v


def _free_atoms(zb, q, limit=6):
    """boolean atoms of a conditional summand that do not mention the summation index"""
    if not _has_ite(zb):
        return []
    out, seen, stack = [], set(), [zb]
    while stack and len(out) < limit:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bool(x) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_app_of(x, z3.Z3_OP_IMPLIES) or z3.is_true(x) or z3.is_false(x)):
            if not mentions(x, q):
                out.append(x)
                continue
        stack.extend(x.children())
    return out


def _has_ite(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        stack.extend(x.children())
    return False


def conjuncts(c, neg=False):
    """conjuncts of c (of its negation with neg)"""
    if z3.is_not(c):
        return conjuncts(c.arg(0), not neg)
    if (z3.is_and(c) and not neg) or (z3.is_or(c) and neg):
        return [y for x in c.children() for y in conjuncts(x, neg)]
    return [z3.Not(c) if neg else c]


def _num_is(x, v=None):
    k = _num(x)
    return k is not None and (v is None or k == v)


def _only_perm(t, q, n):
    """the application P(.., q) of a registered permutation of 0..n-1 through which alone t depends on q"""
    if not REG.perms or not mentions(t, q):
        return None
    for a in apps_of(t, set(REG.perms)):
        if a.children()[-1].eq(q) and same(REG.perms[a.decl().name()], n):
            w = z3.Int('w!perm')
            r = z3.substitute(t, (a, w))
            if not mentions(r, q):
                return a
    return None


def _count_interval(n, q, c):
    """number of q in [0, n) with lo <= q < hi for a conjunction of bounds on q"""
    lo, hi = 0, n
    for x in c:
        neg = False
        if z3.is_not(x):
            x, neg = x.arg(0), True
        k = x.decl().kind()
        if z3.is_eq(x) and not neg and z3.is_int(x.arg(0)):
            u, v = x.children()
            if v.eq(q):
                u, v = v, u
            if not u.eq(q) or mentions(v, q):
                return None
            lo, hi = imax(lo, fold(v)), imin(hi, iadd(fold(v), 1))
            continue
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(x.arg(0)):
            return None
        d = isub(fold(x.arg(0)), fold(x.arg(1)))
        # d (<=,>=,<,>) 0 with d = s*q + r
        r0 = subst(d, [(q, 0)])
        s = isub(subst(d, [(q, 1)]), r0)
        if isz(s) or s not in (1, -1) or mentions(r0, q):
            return None
        if same(isub(isub(d, r0), imul(s, q)), 0) is not True:
            return None
        op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>'}[k]
        if neg:
            op = {'<=': '>', '>=': '<', '<': '>=', '>': '<='}[op]
        if s == -1:     # -q + r op 0  ->  q rop r
            b, op = r0, {'<=': '>=', '>=': '<=', '<': '>', '>': '<'}[op]
        else:
            b = isub(0, r0)
        if op == '>=':
            lo = imax(lo, b)
        elif op == '>':
            lo = imax(lo, iadd(b, 1))
        elif op == '<':
            hi = imin(hi, b)
        else:
            hi = imin(hi, iadd(b, 1))
    return imax(0, isub(hi, lo))


def mk_count(n, q, cond):
    if cond is True:
        return imax(0, n)
    if cond is False:
        return 0
    return mk_sum(n, q, z3.If(cond, z3.IntVal(1), z3.IntVal(0)), 'int')


# selection symbols of filters: sel(p, params) = index of the p-th selected element
class SelSym:
    def __init__(self, decl, params, q, cond, cnt):
        self.decl, self.params, self.q, self.cond, self.cnt = decl, params, q, cond, cnt


def mk_filter(n, q, cond):
    """returns (count term, sel: p -> index term) for the indices 0<=q<n satisfying cond(q)"""
    zc = Z(cond)
    cnt_n = mk_count(n, q, zc)
    if not isz(cnt_n) or not z3.is_app(cnt_n) or cnt_n.decl().name() not in REG.sums:
        if cond is True:
            return cnt_n, (lambda p: p)
        if cond is False:
            return 0, (lambda p: p)
        if mentions(zc, q):
            # the count was rewritten: the selection needs the plain symbol
            cnt_n = mk_sum(n, q, z3.If(zc, z3.IntVal(1), z3.IntVal(0)), 'int', factor=False)
    sumsym = REG.sums.get(cnt_n.decl().name()) if isz(cnt_n) and z3.is_app(cnt_n) else None
    if sumsym is None:
        raise Unsupported('filter with a condition that does not depend on the element')
    name = 'Sel_' + sumsym.decl.name()
    if name not in REG.keyed:
        d = z3.Function(name, *([z3.IntSort()] * (2 + len(sumsym.params)) + [z3.IntSort()]))
        REG.keyed[name] = SelSym(d, sumsym.params, sumsym.q, sumsym.body, sumsym)

    ss = REG.keyed[name]
    return cnt_n, (lambda p: ss.decl(Z(p), Z(n), *[cnt_n.arg(1 + i) for i in range(len(ss.params))]))


# ---------------------------------------------------------------- query engine
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.feas = 0
        self.feas_time = 0.0


STATS = Stats()


def _apps(fs, skip, mul=None):
    """all uninterpreted applications (num_args>0 or registered) in formulas fs not in skip"""
    out = {}
    stack = list(fs)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in skip:
            continue
        skip[i] = x
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            elif mul is not None and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int(x) and \
                    not z3.is_int_value(x.arg(0)) and not z3.is_int_value(x.arg(1)):
                mul.append(x)
            stack.extend(x.children())
    return list(out.values())


MAXPAIRS = 60


def instantiate(fs, rounds=4, budget=4000):
    """ground axiom instances for the applications in fs"""
    fs = [Z(f) for f in fs if f is not True]
    skip = {}
    extra = list(REG.facts)
    new = list(fs) + extra
    sums = []
    sels = []
    monos = []
    pairdone = set()
    argdone = set()
    flats, prods = [], []
    for rnd in range(rounds):
        mul = [] if 'flatrow' in REG.ax else None
        apps = _apps(new, skip, mul)
        new = []
        # positions of a flattened h x w array: row-major numbering is onto 0 .. h*w-1
        nf = [a for a in apps if a.decl().name() in ('flatrow', 'flatidx')] if mul is not None else []
        for a in flats + nf:
            w = a.children()[-1]
            for m in (mul if a in flats else prods + mul) if nf or mul else ():
                x, y = m.children()
                if not x.eq(w) and not y.eq(w):
                    continue
                h = y if x.eq(w) else x
                if a.decl().name() == 'flatrow':
                    p = a.arg(0)
                    new.append(z3.Implies(z3.And(0 <= p, p < m, w > 0), a < h))
                else:
                    r, c = a.arg(0), a.arg(1)
                    new.append(z3.Implies(z3.And(0 <= r, r < h, 0 <= c, c < w), a < m))
        flats += nf
        prods += mul or []
        nsums, nsels = [], []
        for a in apps:
            nm = a.decl().name()
            mp = REG.pairs.get(nm)
            if mp is not None:
                # monotone in the last argument on 0 <= i < mp[1]
                for b in monos:
                    if b.decl().eq(a.decl()) and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                        i, j = a.children()[-1], b.children()[-1]
                        n = Z(mp[1])
                        ok = z3.And(0 <= i, i < n, 0 <= j, j < n)
                        new.append(z3.Implies(z3.And(ok, i <= j), a <= b))
                        new.append(z3.Implies(z3.And(ok, j <= i), b <= a))
                monos.append(a)
            for ax in REG.ax.get(nm, ()):
                for f in ax(*a.children()):
                    if f is True:
                        continue
                    new.append(Z(f))
            if nm in REG.sums:
                nsums.append(a)
            elif nm.startswith('Sel_'):
                nsels.append(a)
        for a in nsums:
            sym = REG.sums[a.decl().name()]
            n, args = a.arg(0), a.children()[1:]
            new.append(z3.Implies(n <= 0, a == 0))
            # last-term unfolding
            last = sym.at(args, n - 1)
            prev = sym.decl(n - 1, *args)
            if rnd <= 1:
                skip[prev.get_id()] = prev
                new.append(z3.Implies(n >= 1, a == prev + last))
            if sym.nonneg:
                new.append(a >= 0)
            if sym.is01:
                # counts: each term is 0 or 1
                new.append(z3.Implies(n >= 0, a <= n))
            # sign lemma: (some term negative) or sum >= 0 ; symmetric
            sk = z3.Int(REG.fresh('qs'))
            b = sym.at(args, sk)
            if not sym.nonneg:
                new.append(z3.Or(z3.And(0 <= sk, sk < n, Z(b) < 0), a >= 0))
        for a in nsels:
            ss = REG.keyed[a.decl().name()]
            p, n, args = a.arg(0), a.arg(1), a.children()[2:]
            c = ss.cnt.decl(n, *args)
            inr = z3.And(0 <= p, p < c)
            new.append(z3.Implies(inr, z3.And(0 <= a, a < n, ss.cnt.at(args, a) == 1, ss.cnt.decl(a, *args) == p)))
            # membership of any other candidate index is triggered by counts: see pairs below
        sums_all = sums + nsums
        # pair lemmas
        for i, a in enumerate(sums_all):
            sa = REG.sums[a.decl().name()]
            for b in nsums if i < len(sums) else nsums[i - len(sums) + 1:]:
                if a.eq(b) or len(pairdone) > MAXPAIRS:
                    continue
                sb = REG.sums[b.decl().name()]
                if sa.kind != sb.kind:
                    x, y = (a, b) if sa.kind == 'int' else (b, a)
                    sx, sy = REG.sums[x.decl().name()], REG.sums[y.decl().name()]
                    if (x.get_id(), y.get_id()) in pairdone:
                        continue
                    pairdone.add((x.get_id(), y.get_id()))
                    sks = [z3.Int(REG.fresh('qx')) for _ in range(3)]
                    nx = x.arg(0)
                    t = [(z3.ToReal(Z(sx.at(x.children()[1:], q))), Z(sy.at(y.children()[1:], q))) for q in sks]
                    g = [z3.And(0 <= q, q < nx) for q in sks]
                    X = z3.ToReal(x)
                    ne = nx != y.arg(0)
                    new.append(z3.Or(ne, X <= y, z3.And(g[0], t[0][0] > t[0][1])))
                    new.append(z3.Or(ne, X >= y, z3.And(g[1], t[1][0] < t[1][1])))
                    new.append(z3.Or(ne, nx <= 0, y - X < z3.ToReal(nx), z3.And(g[2], t[2][1] - t[2][0] >= 1)))
                    continue
                key = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
                if key in pairdone:
                    continue
                pairdone.add(key)
                na, nb = a.arg(0), b.arg(0)
                aa, ab = a.children()[1:], b.children()[1:]
                sk = z3.Int(REG.fresh('qp'))
                ta, tb = Z(sa.at(aa, sk)), Z(sb.at(ab, sk))
                # congruence
                new.append(z3.Or(na != nb, a == b, z3.And(0 <= sk, sk < na, ta != tb)))
                # pointwise order (either way)
                if sa.kind == 'real' or True:
                    sk2 = z3.Int(REG.fresh('qo'))
                    ta2, tb2 = Z(sa.at(aa, sk2)), Z(sb.at(ab, sk2))
                    new.append(z3.Or(na != nb, a <= b, z3.And(0 <= sk2, sk2 < na, ta2 > tb2)))
                    new.append(z3.Or(na != nb, a >= b, z3.And(0 <= sk2, sk2 < na, ta2 < tb2)))
                # same symbol, different bound: monotone counts; split at the smaller bound
                if sa is sb and all(x.eq(y) for x, y in zip(aa, ab)):
                    if sa.nonneg:
                        new.append(z3.Implies(na <= nb, a <= b))
                        new.append(z3.Implies(nb <= na, b <= a))
                        if sa.is01:
                            new.append(z3.Implies(na <= nb, b - a <= nb - z3.If(na < 0, 0, na)))
                            new.append(z3.Implies(nb <= na, a - b <= na - z3.If(nb < 0, 0, nb)))
                        # an element at min counted => strictly more
                        new.append(z3.Implies(z3.And(0 <= na, na < nb), a + Z(sa.at(aa, na)) <= b))
                        new.append(z3.Implies(z3.And(0 <= nb, nb < na), b + Z(sa.at(aa, nb)) <= a))
                    else:
                        new.append(z3.Implies(z3.And(na == nb + 1, nb >= 0), a == b + Z(sb.at(ab, nb))))
                        new.append(z3.Implies(z3.And(nb == na + 1, na >= 0), b == a + Z(sa.at(aa, na))))
                        skm = z3.Int(REG.fresh('qm'))
                        tm = Z(sa.at(aa, skm))
                        new.append(z3.Or(z3.And(0 <= skm, skm < z3.If(na < nb, nb, na), tm < 0),
                                         z3.Implies(na <= nb, a <= b)))
                        new.append(z3.Or(z3.And(0 <= skm, skm < z3.If(na < nb, nb, na), tm < 0),
                                         z3.Implies(nb <= na, b <= a)))
        # selection congruence and inverse
        sels_all = sels + nsels
        for i, a in enumerate(sels_all):
            sa = REG.keyed[a.decl().name()]
            for b in nsels if i < len(sels) else nsels[i - len(sels) + 1:]:
                if a.eq(b):
                    continue
                sb = REG.keyed[b.decl().name()]
                aa, ab = a.children()[2:], b.children()[2:]
                sk = z3.Int(REG.fresh('qf'))
                ta, tb = Z(sa.cnt.at(aa, sk)), Z(sb.cnt.at(ab, sk))
                na, nb = a.arg(1), b.arg(1)
                pa, pb = a.arg(0), b.arg(0)
                m = z3.If(na < nb, na, nb)
                ca, cb = sa.cnt.decl(m, *aa), sb.cnt.decl(m, *ab)
                # same prefix conditions, same rank within that prefix => same index
                new.append(z3.Or(pa != pb, pa < 0, pa >= ca, z3.And(0 <= sk, sk < m, ta != tb), a == b))
                # strictly increasing
                if sa is sb and all(x.eq(y) for x, y in zip(aa, ab)) and na.eq(nb):
                    cn = sa.cnt.decl(na, *aa)
                    ok = z3.And(0 <= pa, pa < cn, 0 <= pb, pb < cn)
                    new.append(z3.Implies(ok, z3.And((pa < pb) == (a < b), (pa == pb) == (a == b))))
        # sel(count(q)) = q for selected q when both symbols are present
        for a in nsels:
            ss = REG.keyed[a.decl().name()]
            aargs = a.children()[2:]
            for b in sums_all:
                if b.decl().eq(ss.cnt.decl) and all(x.eq(y) for x, y in zip(aargs, b.children()[1:])):
                    q0 = b.arg(0)
                    new.append(z3.Implies(z3.And(0 <= q0, q0 < a.arg(1), ss.cnt.at(aargs, q0) == 1, a.arg(0) == b), a == q0))
        sums, sels = sums_all, sels_all
        if not new:
            break
        extra.extend(new)
        if len(extra) > budget:
            break
    return extra


_MUL = z3.Function('mul$', z3.RealSort(), z3.RealSort(), z3.RealSort())
_DIV = z3.Function('div$', z3.RealSort(), z3.RealSort(), z3.RealSort())
_IMUL = z3.Function('imul$', z3.IntSort(), z3.IntSort(), z3.IntSort())


_NLMEMO = {}
_NLFACT = {}
_NONE = frozenset()


def _nlnote(m, a, b, isdiv):
    k = m.get_id()
    if k in _NLFACT:
        return _NLFACT[k][2]
    own = frozenset([k])
    _NLFACT[k] = (m, None, own)
    z = [z3.Implies(z3.And(a > 0, b > 0), m > 0), z3.Implies(z3.And(a < 0, b < 0), m > 0),
         z3.Implies(z3.And(a > 0, b < 0), m < 0), z3.Implies(z3.And(a < 0, b > 0), m < 0)]
    if isdiv:
        mm, f = _nlmul(m, b)
        z += [z3.Implies(z3.And(a == 0, b != 0), m == 0), z3.Implies(z3.And(a == b, b != 0), m == 1),
              z3.Implies(b != 0, mm == a)]
        own = own | f
    else:
        z += [z3.Implies(z3.Or(a == 0, b == 0), m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a)]
    _NLFACT[k] = (m, z, own)
    return own


def _nlmul(a, b):
    real = z3.is_real(a)
    for x, y in ((a, b), (b, a)):
        if z3.is_rational_value(x) or z3.is_int_value(x):
            return x * y, _NONE
    if a.get_id() > b.get_id():
        a, b = b, a
    m = (_MUL if real else _IMUL)(a, b)
    return m, _nlnote(m, a, b, False)


def _nlwalk(t):
    """(t with nonlinear operations abstracted, ids of the abstracted operations)"""
    k = t.get_id()
    c = _NLMEMO.get(k)
    if c is not None:
        return c[1], c[2]
    r, fs = t, _NONE
    if z3.is_app(t) and t.num_args():
        ch = t.children()
        n = []
        for c in ch:
            x, f = _nlwalk(c)
            n.append(x)
            if f:
                fs = fs | f
        kd = t.decl().kind()
        if kd == z3.Z3_OP_MUL:
            coef = [x for x in n if z3.is_rational_value(x) or z3.is_int_value(x)]
            rest = [x for x in n if not (z3.is_rational_value(x) or z3.is_int_value(x))]
            if len(rest) > 1:
                rest.sort(key=lambda x: x.get_id())
                r = None
                for x in rest:
                    if r is None:
                        r = x
                    else:
                        r, f = _nlmul(r, x)
                        fs = fs | f
                for c in coef:
                    r = c * r
            elif any(not a.eq(b) for a, b in zip(ch, n)):
                r = rebuild_app(t, n)
        elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(n[1]):
            r = _DIV(n[0], n[1])
            fs = fs | _nlnote(r, n[0], n[1], True)
        elif any(not a.eq(b) for a, b in zip(ch, n)):
            r = rebuild_app(t, n)
    _NLMEMO[k] = (t, r, fs)
    return r, fs


def abstract_nl(fs):
    """fs with nonlinear products and quotients as uninterpreted functions, plus valid facts on signs (an over-approximation:
    unsatisfiable results carry over); None when fs is linear"""
    out, ops = [], _NONE
    for f in fs:
        r, o = _nlwalk(f)
        out.append(r)
        if o:
            ops = ops | o
    if not ops:
        return None
    for k in ops:
        out += _NLFACT[k][1] or []
    return out


def rebuild_app(t, n):
    kd = t.decl().kind()
    if kd == z3.Z3_OP_AND:
        return z3.And(*n)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*n)
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(n)
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*n)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(n)
    return t.decl()(*n)


def check(fs, timeout_ms=10000, rounds=4, want_model=False, tactic=None):
    """satisfiability of the conjunction of fs with axiom instances; returns 'sat'/'unsat'/'unknown'[, model]"""
    t0 = time.time()
    fs = [Z(f) for f in fs if f is not True]
    for f in fs:
        if z3.is_false(f):
            return ('unsat', None) if want_model else 'unsat'
    ex = instantiate(fs, rounds)
    if tactic is None:
        ab = abstract_nl(fs + ex)
        if ab is not None:
            s = z3.Solver()
            s.set('timeout', int(min(timeout_ms, 8000)))
            s.add(*ab)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = 'unknown'
            if r == 'unsat':
                STATS.queries += 1
                STATS.time += time.time() - t0
                return ('unsat', None) if want_model else 'unsat'
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    s.add(*fs)
    s.add(*ex)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    m = None
    if r == 'sat' and want_model:
        m = s.model()
    STATS.queries += 1
    STATS.time += time.time() - t0
    return (r, m) if want_model else r


def cvc5_check(fs, timeout_ms=20000, rounds=4):
    """same query with cvc5 through SMT-LIB2"""
    import subprocess, tempfile
    fs = [Z(f) for f in fs if f is not True]
    ex = instantiate(fs, rounds)
    s = z3.Solver()
    s.add(*fs)
    s.add(*ex)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', nm], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception:
        o = 'unknown'
    finally:
        os.unlink(nm)
    return o if o in ('sat', 'unsat') else 'unknown'
