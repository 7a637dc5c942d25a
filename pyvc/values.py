"""Symbolic values of the verified program."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import F, Unsupported, isz, band, bor, bnot, ite, fite, beq, ieq, ilt, ile, iadd, isub, imul, toF, subst

ObjSort = z3.DeclareSort('Obj')
_box = z3.Function('box', z3.RealSort(), z3.BoolSort(), z3.BoolSort(), ObjSort)
_unv = z3.Function('unbox_v', ObjSort, z3.RealSort())
_unn = z3.Function('unbox_nan', ObjSort, z3.BoolSort())
_uni = z3.Function('unbox_inf', ObjSort, z3.BoolSort())
OBJ_NONE = z3.Const('obj_none', ObjSort)


def _ax_box(v, n, i):
    b = _box(v, n, i)
    return [z3.And(_unv(b) == v, _unn(b) == n, _uni(b) == i, b != OBJ_NONE)]


def init_box():
    T.REG.ax['box'] = [_ax_box]


class OV:
    """a value of unknown type (z3 term of sort Obj)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'OV(%s)' % self.t


def to_obj(v):
    if isinstance(v, OV):
        return v.t
    if v is None:
        return OBJ_NONE
    if isinstance(v, (F, int, Fraction)) or isz(v):
        f = toF(v)
        z = T.rsub(f.v, 0)
        return _box(T.ZR(f.v), T.Z(f.nan), T.Z(f.inf))
    raise Unsupported('box %r' % (v,))


class Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Poison(Undef):
    """value of a loop temporary at the head of an iteration: reading it leaves the supported subset"""
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Opaque:
    """an object of an external library the verifier does not look into"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class SStr:
    """string built from parts some of which are symbolic"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class SName(SStr):
    """arbitrary string of which only the upper-case spelling is known (known), or of which it is known that its upper-case
    spelling is none of excluded; form: the string itself ('raw') or the result of upper() / lower() on it"""
    __slots__ = ('known', 'excluded', 'form')

    def __init__(self, known=None, excluded=(), form='raw'):
        self.parts = ('name', str(known), form)
        self.known, self.excluded, self.form = known, frozenset(excluded), form

    def eq(self, s):
        if self.known is not None:
            if s.upper() != self.known:
                return False
        elif s.upper() in self.excluded:
            return False
        if self.form == 'upper' and s != s.upper() or self.form == 'lower' and s != s.lower():
            return False
        return z3.Bool('name:%s=%s' % (self.form, s))

    def method(self, name, a):
        if a:
            return None
        if name in ('upper', 'lower', 'casefold', 'title', 'capitalize'):
            if self.known is not None:
                return getattr(self.known, name)()
            if name == 'upper':
                return SName(None, self.excluded, 'upper')
            if name in ('lower', 'casefold'):
                return SName(None, self.excluded, 'lower')
        if name == 'strip' and self.known is not None:
            return self
        return None


def kx(i):
    return i if isinstance(i, (int, bool)) else ('z', i.get_id())


class AVal:
    """array value: shape, kind ('f','i','b','o'), total index function"""
    __slots__ = ('shape', 'kind', '_get', 'memo', 'inv', 'note')

    def __init__(self, shape, kind, get, inv=None, note=None):
        self.shape = tuple(shape)
        self.kind = kind
        self._get = get
        self.memo = {}
        self.inv = inv
        self.note = note

    def get(self, idx):
        key = tuple(kx(i) for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = (idx, self._get(tuple(idx)))
            self.memo[key] = r
        return r[1]

    def __repr__(self):
        return 'AVal%s%s' % (self.kind, self.shape)


class LVal:
    """list value: length and element function; items holds the elements when the length is concrete"""
    __slots__ = ('len', '_fn', 'items', 'memo', 'note')

    def __init__(self, n, fn=None, items=None, note=None):
        if items is not None:
            items = list(items)
            n = len(items)
        self.len = n
        self._fn = fn
        self.items = items
        self.memo = {}
        self.note = note

    def at(self, i):
        if self.items is not None:
            if not isz(i):
                return self.items[i] if 0 <= i < len(self.items) else (self.items[0] if self.items else UNDEF)
            if not self.items:
                return UNDEF
            r = self.items[-1]
            for q in range(len(self.items) - 2, -1, -1):
                r = vite(ieq(i, q), self.items[q], r)
            return r
        if self._fn is None:
            return UNDEF
        k = kx(i)
        r = self.memo.get(k)
        if r is None:
            r = (i, self._fn(i))
            self.memo[k] = r
        return r[1]

    @property
    def empty(self):
        return (self.items is not None and not self.items) or (self._fn is None and self.items is None)

    def __repr__(self):
        return 'L%r' % (self.items,) if self.items is not None else 'L<%s>' % (self.len,)


class DVal:
    """dict with concrete keys; every value may be an Undef-Choice for conditional presence"""
    __slots__ = ('d', 'note')

    def __init__(self, d, note=None):
        self.d = dict(d)
        self.note = note

    def __repr__(self):
        return 'D%r' % (self.d,)


class OVal:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = dict(attrs)

    def __repr__(self):
        return 'O<%s>' % (self.cls,)


class Ref:
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cid == self.cid

    def __hash__(self):
        return hash(('ref', self.cid))

    def __repr__(self):
        return 'Ref%d' % self.cid


class AView:
    """basic-indexing view of an array cell: per base axis ('i', idx) or ('s', start, step, len)"""
    __slots__ = ('cid', 'spec')

    def __init__(self, cid, spec):
        self.cid = cid
        self.spec = tuple(spec)

    @property
    def shape(self):
        return tuple(s[3] for s in self.spec if s[0] == 's')

    def base_idx(self, idx):
        out = []
        p = 0
        for s in self.spec:
            if s[0] == 'i':
                out.append(s[1])
            else:
                out.append(iadd(s[1], imul(s[2], idx[p])))
                p += 1
        return tuple(out)


class Path:
    """element of a nested list cell: the list at content[idxs[0]][idxs[1]]..."""
    __slots__ = ('cid', 'idxs')

    def __init__(self, cid, idxs):
        self.cid = cid
        self.idxs = tuple(idxs)


class Comp:
    """result of boolean-mask selection, elementwise aligned with the mask"""
    __slots__ = ('mask', '_get', 'kind')

    def __init__(self, mask, get, kind):
        self.mask = mask
        self._get = get
        self.kind = kind

    def get(self, idx):
        return self._get(idx)


class IterV:
    """one-shot or re-iterable sequence of known length"""
    __slots__ = ('len', 'fn', 'kind', 'eff')

    def __init__(self, n, fn, kind='iter', eff=None):
        self.len = n
        self.fn = fn
        self.kind = kind
        self.eff = eff      # for map(): (closure, [iterables]) evaluated with effects


class SliceV:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class NoStructure(Unsupported):
    pass


class Closure:
    __slots__ = ('node', 'fid', 'mod', 'name', 'defaults', 'qual')

    def __init__(self, node, fid, mod, name, defaults=(), qual=None):
        self.node, self.fid, self.mod, self.name, self.defaults, self.qual = node, fid, mod, name, defaults, qual


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Method:
    """method of a built-in value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV:
    __slots__ = ('name', 'node', 'mod')

    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod


class ModuleV:
    __slots__ = ('name', 'user')

    def __init__(self, name, user=None):
        self.name, self.user = name, user


class Choice:
    """guarded union of values; guards are exclusive and exhaustive (last alternative is the else)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Choice%r' % (self.alts,)


def is_num(v):
    return isinstance(v, (int, F, Fraction)) or (isz(v) and v.sort() != ObjSort)


def is_boolv(v):
    return isinstance(v, bool) or (isz(v) and z3.is_bool(v))


def is_intv(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))


def as_int(v):
    """bool/int scalar -> int scalar"""
    if isinstance(v, bool):
        return int(v)
    if isz(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int) or (isz(v) and z3.is_int(v)):
        return v
    raise Unsupported('not an int: %r' % (v,))


def scal_ite(c, a, b):
    """ite on numeric scalars with Python type joining"""
    if isinstance(a, F) or isinstance(b, F):
        return fite(c, toF(a), toF(b))
    if is_boolv(a) and is_boolv(b):
        return ite(c, a, b)
    return ite(c, as_int(a), as_int(b))


def kind_of(v):
    if isinstance(v, F):
        return 'f'
    if is_boolv(v):
        return 'b'
    if is_intv(v):
        return 'i'
    return 'o'


def join_kind(a, b):
    if a == b:
        return a
    if 'o' in (a, b):
        return 'o'
    return 'f' if 'f' in (a, b) else 'i'


def kcast(kind, v):
    if kind == 'f':
        return toF(v)
    if kind == 'i':
        return as_int(v)
    return v


def shape_same(s1, s2):
    return len(s1) == len(s2) and all(T.same(a, b) or (isz(a) and isz(b) and T.isub(a, b) == 0) for a, b in zip(s1, s2))


def _choice_alts(v):
    return list(v.alts) if isinstance(v, Choice) else [(True, v)]


def vite(c, a, b):
    """if-then-else on values"""
    if c is True or (isz(c) and z3.is_true(c)):
        return a
    if c is False or (isz(c) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if isinstance(a, Choice) or isinstance(b, Choice):
        return mk_choice([(band(c, g), v) for g, v in _excl(a)] + [(band(bnot(c), g), v) for g, v in _excl(b)])
    if is_num(a) and is_num(b):
        return scal_ite(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if a is None and b is None:
        return None
    if isinstance(a, OV) or isinstance(b, OV):
        try:
            return OV(ite(c, to_obj(a), to_obj(b)))
        except Unsupported:
            pass
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, LVal) and isinstance(b, LVal):
        if a.empty and b.empty:
            return a
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return LVal(None, items=[vite(c, x, y) for x, y in zip(a.items, b.items)])
        if a.empty:
            return LVal(ite(c, 0, b.len), lambda i: b.at(i))
        if b.empty:
            return LVal(ite(c, a.len, 0), lambda i: a.at(i))
        return LVal(ite(c, a.len, b.len), lambda i: _vl(c, a, b, i))
    if isinstance(a, AVal) and isinstance(b, AVal) and len(a.shape) == len(b.shape):
        k = join_kind(a.kind, b.kind)
        return AVal(tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape)), k,
                    lambda idx: scal_ite(c, kcast(k, a.get(idx)), kcast(k, b.get(idx))) if k != 'o' else vite(c, a.get(idx), b.get(idx)))
    if isinstance(a, DVal) and isinstance(b, DVal):
        ks = list(a.d) + [k for k in b.d if k not in a.d]
        return DVal({k: vite(c, a.d.get(k, UNDEF), b.d.get(k, UNDEF)) for k in ks}, a.note if a.note is b.note else None)
    if isinstance(a, OVal) and isinstance(b, OVal) and a.cls is b.cls:
        ks = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
        return OVal(a.cls, {k: vite(c, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)) for k in ks})
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        return a
    if isinstance(a, Path) and isinstance(b, Path) and a.cid == b.cid and len(a.idxs) == len(b.idxs):
        return Path(a.cid, tuple(ite(c, x, y) for x, y in zip(a.idxs, b.idxs)))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a.tag == b.tag else Opaque('merged')
    if isinstance(a, (Builtin, ModuleV)) and isinstance(b, type(a)) and a.name == b.name:
        return a
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node and a.fid == b.fid:
        return a
    if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
        return a
    return mk_choice([(c, a), (bnot(c), b)])


def _vl(c, a, b, i):
    """element of a conditional list; an element that exists only on one side is that side's"""
    if isz(i):
        return vite(c, a.at(i), b.at(i))
    av = a.at(i) if a.items is None or i < len(a.items) else UNDEF
    bv = b.at(i) if b.items is None or i < len(b.items) else UNDEF
    if av is UNDEF:
        return bv
    if bv is UNDEF:
        return av
    return vite(c, av, bv)


def _excl(v):
    if not isinstance(v, Choice):
        return [(True, v)]
    return list(v.alts)


def _alt_same(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cid == b.cid
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is b
    return False


def sstr_ite(c, a, b):
    """c ? a : b of strings with the same fixed parts, or None"""
    if len(a.parts) != len(b.parts):
        return None
    out = []
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return None
            out.append(x)
        elif is_num(x) and is_num(y):
            out.append(scal_ite(c, x, y))
        else:
            return None
    return SStr(out)


def mk_choice(alts):
    out = []
    for g, v in alts:
        if g is False:
            continue
        for i, (g2, v2) in enumerate(out):
            if _alt_same(v, v2):
                out[i] = (bor(g2, g), v2)
                break
            if is_num(v) and is_num(v2):
                out[i] = (bor(g2, g), scal_ite(g2, v2, v))
                break
            if isinstance(v, LVal) and isinstance(v2, LVal):
                out[i] = (bor(g2, g), vite(g2, v2, v))
                break
            if type(v) is SStr and type(v2) is SStr:
                m = sstr_ite(g2, v2, v)
                if m is not None:
                    out[i] = (bor(g2, g), m)
                    break
            if isinstance(v, Opaque) and isinstance(v2, Opaque):
                out[i] = (bor(g2, g), Opaque('merged') if v.tag != v2.tag else v2)
                break
        else:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    return Choice(out)


# ---------------------------------------------------------------- leaves
class Skel:
    """structure of a value with the scalar terms taken out"""
    __slots__ = ('kind', 'sub', 'extra')

    def __init__(self, kind, sub=(), extra=None):
        self.kind, self.sub, self.extra = kind, tuple(sub), extra

    def __repr__(self):
        return '%s%s' % (self.kind, list(self.sub) if self.sub else '')


def sort_of_leaf(t):
    if isinstance(t, bool):
        return z3.BoolSort()
    if isinstance(t, int):
        return z3.IntSort()
    if isinstance(t, Fraction):
        return z3.RealSort()
    return t.sort()


def flatten(v, args=()):
    """-> (Skel, [(leaf name, args, term)]); element functions are evaluated at fresh bound indices"""
    if isinstance(v, F):
        lv = [('v', args, v.v)]
        nan, inf = v.nan, v.inf
        sub = []
        if nan is False and inf is False and not isinstance(v, FV):
            return Skel('F0'), lv
        return Skel('F'), lv + [('nan', args, nan), ('inf', args, inf)]
    if is_boolv(v):
        return Skel('b'), [('b', args, v)]
    if is_intv(v):
        return Skel('i'), [('i', args, v)]
    if isinstance(v, Fraction):
        return flatten(F(v), args)
    if isinstance(v, OV):
        return Skel('O'), [('o', args, v.t)]
    if v is None or isinstance(v, (str, Opaque, Undef, Ref, Builtin, ModuleV, Closure, ClassV, SName, AView, Path, Bound, Method)):
        return Skel('const', extra=v), []
    if isinstance(v, SStr):
        sk, lv = [], []
        for i, x in enumerate(v.parts):
            s, l = flatten(x, args)
            sk.append(s)
            lv += [('s%d.%s' % (i, n), a, t) for n, a, t in l]
        return Skel('S', sk), lv
    if isinstance(v, tuple):
        sk, lv = [], []
        for i, x in enumerate(v):
            s, l = flatten(x, args)
            sk.append(s)
            lv += [('%d.%s' % (i, n), a, t) for n, a, t in l]
        return Skel('tuple', sk), lv
    if isinstance(v, LVal):
        if v.empty:
            return Skel('L[]'), [('len', args, 0)]
        if v.items is not None:
            sk, lv = [], []
            for i, x in enumerate(v.items):
                s, l = flatten(x, args)
                sk.append(s)
                lv += [('%d.%s' % (i, n), a, t) for n, a, t in l]
            return Skel('Litems', sk), lv
        q = T.bound_int('q')
        s, l = flatten(v.at(q), args + (q,))
        return Skel('L', [s]), [('len', args, v.len)] + [('e.' + n, a, t) for n, a, t in l]
    if isinstance(v, AVal):
        qs = tuple(T.bound_int('q') for _ in v.shape)
        if v.kind == 'o':
            s, l = flatten(v.get(qs), args + qs)
        else:
            x = v.get(qs)
            s, l = flatten(x, args + qs)
        return Skel('A', [s], (v.shape, v.kind)), [('a.' + n, a, t) for n, a, t in l]
    if isinstance(v, DVal):
        sk, lv = [], []
        for k, x in v.d.items():
            s, l = flatten(x, args)
            sk.append(s)
            lv += [('[%s].%s' % (k, n), a, t) for n, a, t in l]
        return Skel('D', sk, tuple(v.d)), lv
    if isinstance(v, OVal):
        sk, lv = [], []
        for k, x in v.attrs.items():
            s, l = flatten(x, args)
            sk.append(s)
            lv += [('.%s.%s' % (k, n), a, t) for n, a, t in l]
        return Skel('Ob', sk, (v.cls, tuple(v.attrs))), lv
    if isinstance(v, Choice):
        sk, lv = [], []
        for i, (g, x) in enumerate(v.alts):
            s, l = flatten(x, args)
            sk.append(s)
            lv += [('?%d' % i, args, g)] + [('%d~%s' % (i, n), a, t) for n, a, t in l]
        return Skel('Choice', sk), lv
    raise Unsupported('flatten %r' % (v,))


def same_skel(a, b):
    if a.kind != b.kind or len(a.sub) != len(b.sub):
        return False
    if a.kind == 'const':
        x, y = a.extra, b.extra
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            return True
        if isinstance(x, Ref) or isinstance(y, Ref):
            return x == y
        if isinstance(x, str) or isinstance(y, str):
            return x == y if isinstance(x, str) and isinstance(y, str) else False
        if isinstance(x, Closure) and isinstance(y, Closure):
            return x.node is y.node
        if isinstance(x, (Builtin, ModuleV, ClassV)) and type(x) is type(y):
            return x.name == y.name
        return x is y
    if a.kind == 'D' and a.extra != b.extra:
        return False
    if a.kind == 'Ob' and a.extra != b.extra:
        return False
    if a.kind == 'A' and not (a.extra[1] == b.extra[1] and shape_same(a.extra[0], b.extra[0])):
        return False
    return all(same_skel(x, y) for x, y in zip(a.sub, b.sub))


def join_skel(a, b):
    """least common structure or None"""
    if same_skel(a, b):
        return a
    ks = {a.kind, b.kind}
    if ks <= {'F0', 'F', 'i', 'b'}:
        return Skel('F') if 'F' in ks else Skel('F0') if 'F0' in ks else Skel('i')
    if ks <= {'F0', 'F', 'i', 'b', 'O', 'const'} and 'O' in ks:
        for x in (a, b):
            if x.kind == 'const' and x.extra is not None:
                return None
        return Skel('O')
    if a.kind == 'L[]' and b.kind in ('L', 'L[]'):
        return b
    if b.kind == 'L[]' and a.kind in ('L', 'L[]'):
        return a
    if {a.kind, b.kind} <= {'L', 'L[]', 'Litems'}:
        subs = []
        for x in (a, b):
            if x.kind in ('L', 'Litems'):
                subs += list(x.sub)
        if not subs:
            return Skel('L[]')
        s = subs[0]
        for y in subs[1:]:
            s = join_skel(s, y)
            if s is None:
                return None
        if a.kind == 'Litems' and b.kind == 'Litems' and len(a.sub) == len(b.sub):
            ss = [join_skel(x, y) for x, y in zip(a.sub, b.sub)]
            return Skel('Litems', ss) if all(x is not None for x in ss) else None
        return Skel('L', [s])
    if a.kind == b.kind and len(a.sub) == len(b.sub) and a.kind in ('tuple', 'D', 'Ob', 'A', 'S'):
        if a.kind in ('D', 'Ob') and a.extra != b.extra:
            return None
        if a.kind == 'A' and not shape_same(a.extra[0], b.extra[0]):
            return None
        ss = [join_skel(x, y) for x, y in zip(a.sub, b.sub)]
        if any(x is None for x in ss):
            return None
        ex = a.extra if a.kind != 'A' else (a.extra[0], join_kind(a.extra[1], b.extra[1]))
        return Skel(a.kind, ss, ex)
    return None


def coerce(v, sk):
    """view value v at the (larger) structure sk"""
    if sk.kind == 'F0':
        f = toF(v)
        return F(f.v)
    if sk.kind == 'F':
        return FV(toF(v))
    if sk.kind == 'i':
        return as_int(v)
    if sk.kind == 'O':
        return OV(to_obj(v))
    if sk.kind == 'L':
        if v.empty:
            return v
        if v.items is not None:
            return LVal(len(v.items), lambda i: coerce(v.at(i), sk.sub[0]))
        return LVal(v.len, lambda i: coerce(v.at(i), sk.sub[0]))
    if sk.kind == 'Litems':
        return LVal(None, items=[coerce(x, s) for x, s in zip(v.items, sk.sub)])
    if sk.kind == 'tuple':
        return tuple(coerce(x, s) for x, s in zip(v, sk.sub))
    if sk.kind == 'S':
        return SStr([coerce(x, s) for x, s in zip(v.parts, sk.sub)])
    if sk.kind == 'A':
        return AVal(v.shape, sk.extra[1], lambda idx: coerce(v.get(idx), sk.sub[0]))
    if sk.kind == 'D':
        return DVal({k: coerce(v.d[k], s) for k, s in zip(sk.extra, sk.sub)}, v.note)
    return v


class FV(F):
    """F that must keep explicit nan/inf leaves"""
    __slots__ = ()

    def __init__(self, f):
        self.v, self.nan, self.inf = f.v, f.nan, f.inf


def leaf_names(sk, arity=0):
    """[(name, arity, sort)] in the order flatten produces; None for structures of unknown element"""
    R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
    k = sk.kind
    if k == 'F0':
        return [('v', arity, R)]
    if k == 'F':
        return [('v', arity, R), ('nan', arity, B), ('inf', arity, B)]
    if k == 'b':
        return [('b', arity, B)]
    if k == 'i':
        return [('i', arity, I)]
    if k == 'O':
        return [('o', arity, ObjSort)]
    if k == 'const':
        return []
    if k == 'L[]':
        return [('len', arity, I)]
    if k == 'S':
        return [('s%d.%s' % (i, n), a, s) for i, x in enumerate(sk.sub) for n, a, s in leaf_names(x, arity)]
    if k in ('tuple', 'Litems'):
        return [('%d.%s' % (i, n), a, s) for i, x in enumerate(sk.sub) for n, a, s in leaf_names(x, arity)]
    if k == 'L':
        return [('len', arity, I)] + [('e.' + n, a, s) for n, a, s in leaf_names(sk.sub[0], arity + 1)]
    if k == 'A':
        return [('a.' + n, a, s) for n, a, s in leaf_names(sk.sub[0], arity + len(sk.extra[0]))]
    if k == 'D':
        return [('[%s].%s' % (kk, n), a, s) for kk, x in zip(sk.extra, sk.sub) for n, a, s in leaf_names(x, arity)]
    if k == 'Ob':
        return [('.%s.%s' % (kk, n), a, s) for kk, x in zip(sk.extra[1], sk.sub) for n, a, s in leaf_names(x, arity)]
    if k == 'Choice':
        out = []
        for i, x in enumerate(sk.sub):
            out += [('?%d' % i, arity, B)] + [('%d~%s' % (i, n), a, s) for n, a, s in leaf_names(x, arity)]
        return out
    raise Unsupported('leaf_names %r' % sk)


def rebuild(sk, get, args=(), pre='', note=None):
    """value of structure sk whose leaf `name` at index args is get(name, args)"""
    k = sk.kind
    if k == 'F0':
        return F(get(pre + 'v', args))
    if k == 'F':
        return F(get(pre + 'v', args), get(pre + 'nan', args), get(pre + 'inf', args))
    if k == 'b':
        return get(pre + 'b', args)
    if k == 'i':
        return get(pre + 'i', args)
    if k == 'O':
        return OV(get(pre + 'o', args))
    if k == 'const':
        return sk.extra
    if k == 'L[]':
        n = get(pre + 'len', args)
        return LVal(None, items=[]) if n == 0 and not isz(n) else LVal(n, None)
    if k == 'S':
        return SStr([rebuild(x, get, args, pre + 's%d.' % i) for i, x in enumerate(sk.sub)])
    if k == 'tuple':
        return tuple(rebuild(x, get, args, pre + '%d.' % i) for i, x in enumerate(sk.sub))
    if k == 'Litems':
        return LVal(None, items=[rebuild(x, get, args, pre + '%d.' % i) for i, x in enumerate(sk.sub)])
    if k == 'L':
        return LVal(get(pre + 'len', args), lambda i: rebuild(sk.sub[0], get, args + (i,), pre + 'e.'), note=note)
    if k == 'A':
        return AVal(sk.extra[0], sk.extra[1], lambda idx: rebuild(sk.sub[0], get, args + tuple(idx), pre + 'a.'), note=note)
    if k == 'D':
        return DVal({kk: rebuild(x, get, args, pre + '[%s].' % kk) for kk, x in zip(sk.extra, sk.sub)}, note)
    if k == 'Ob':
        return OVal(sk.extra[0], {kk: rebuild(x, get, args, pre + '.%s.' % kk) for kk, x in zip(sk.extra[1], sk.sub)})
    if k == 'Choice':
        return Choice([(get(pre + '?%d' % i, args), rebuild(x, get, args, pre + '%d~' % i)) for i, x in enumerate(sk.sub)])
    raise Unsupported('rebuild %r' % sk)


class Template:
    """a value with bound constants abstracted: at(pairs) substitutes simultaneously"""

    def __init__(self, v):
        self.sk, leaves = flatten(v)
        self.leaves = {n: (a, t) for n, a, t in leaves}

    def at(self, pairs):
        def get(name, args):
            a, t = self.leaves[name]
            return subst(t, list(pairs) + list(zip(a, args)))
        return rebuild(self._sk(pairs), get)

    def _sk(self, pairs):
        return _sk_subst(self.sk, pairs)


def _sk_subst(sk, pairs):
    if sk.kind == 'A':
        return Skel('A', [_sk_subst(s, pairs) for s in sk.sub], (tuple(subst(x, pairs) for x in sk.extra[0]), sk.extra[1]))
    if sk.kind == 'const' and isinstance(sk.extra, Path):
        return Skel('const', extra=Path(sk.extra.cid, tuple(subst(x, pairs) for x in sk.extra.idxs)))
    if sk.kind == 'const' and isinstance(sk.extra, AView):
        return Skel('const', extra=AView(sk.extra.cid, tuple(tuple(subst(x, pairs) if isz(x) else x for x in s) for s in sk.extra.spec)))
    if not sk.sub:
        return sk
    return Skel(sk.kind, [_sk_subst(s, pairs) for s in sk.sub], sk.extra)


def vsubst(v, pairs):
    if v is None or isinstance(v, (str, Opaque, Undef, Ref)):
        return v
    if is_num(v) and not isinstance(v, F):
        return subst(v, pairs)
    if isinstance(v, F):
        return F(subst(v.v, pairs), subst(v.nan, pairs), subst(v.inf, pairs))
    return Template(v).at(pairs)
