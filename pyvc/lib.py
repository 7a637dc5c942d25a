"""Models of Python built-in types, indexing and operators."""
import ast
from fractions import Fraction
import z3
from . import terms as T
from .terms import F, Unsupported, isz, band, bor, bnot, imp, ite, fite, beq, ieq, ilt, ile, iadd, isub, imul, toF, Z, NAN
from .values import *
from . import values as V

KNOWN_BUILTINS = {'range', 'len', 'list', 'tuple', 'dict', 'set', 'zip', 'map', 'filter', 'enumerate', 'sorted', 'reversed', 'min', 'max',
                  'abs', 'int', 'float', 'str', 'bool', 'round', 'isinstance', 'getattr', 'setattr', 'hasattr', 'sum', 'any', 'all',
                  'divmod', 'print', 'repr', 'open', 'slice', 'type', 'iter', 'next', 'callable', 'object', 'super', 'staticmethod',
                  'pow', 'id', 'frozenset', 'complex', 'bytes'}

OPAQUE_MODS = ('matplotlib', 'mpl_toolkits', 'sys', 're', 'string', 'collections', 'cycler', 'concurrent')

ARR_ATTRS = {'shape', 'size', 'T', 'flat', 'ndim', 'dtype', 'real'}
ARR_METHODS = {'copy', 'astype', 'sum', 'min', 'max', 'any', 'all', 'ravel', 'flatten', 'reshape', 'tolist', 'searchsorted',
               'transpose', 'cumsum', 'mean', 'argsort', 'fill', 'item', 'clip', 'round', 'squeeze', 'nonzero', 'repeat', 'argmax', 'argmin'}
LIST_METHODS = {'append', 'extend', 'copy', 'index', 'count', 'pop', 'insert', 'sort', 'reverse', 'clear', 'remove'}
DICT_METHODS = {'keys', 'values', 'items', 'get', 'update', 'copy', 'setdefault', 'pop'}
STR_METHODS = {'upper', 'lower', 'casefold', 'title', 'capitalize', 'swapcase', 'lstrip', 'rstrip', 'isupper', 'isalpha', 'isdigit', 'startswith', 'endswith', 'format', 'join', 'split', 'strip', 'replace'}


class IxV:
    __slots__ = ('masks',)

    def __init__(self, masks):
        self.masks = masks


class Ellip:
    pass


class Lib:
    def __init__(self, I):
        self.I = I
        self.builtins = KNOWN_BUILTINS
        from . import libnp
        self.np = libnp.NP(self)

    # ------------------------------------------------------------ modules
    def module_attr(self, mod, name, default=None, has_default=False):
        if mod == 'np':
            mod = 'numpy'
        full = mod + '.' + name
        if mod.split('.')[0] in OPAQUE_MODS:
            return Opaque(full)
        if mod in ('numpy', 'math'):
            if name == 'nan':
                return NAN
            if name == 'inf':
                return T.PINF
            if name == 'pi':
                return self.np.pi()
            if name == 'newaxis':
                return None
            if name == 'random':
                return ModuleV('numpy.random')
            if name == 'linalg':
                return Opaque(full)
            return Builtin(full)
        if mod == 'os':
            if name == 'sep':
                return '/'
            if name == 'path':
                return ModuleV('os.path')
            return Builtin(full)
        if mod == 'scipy':
            if name in ('interpolate', 'spatial', 'ndimage', 'stats'):
                return ModuleV('scipy.' + name)
            return Builtin(full)
        if mod == 'logging':
            if name in LEVELS:
                return LEVELS[name]
            if name in LOGGING_OTHER or not name.isupper():
                return Builtin(full)
            if has_default:
                return default
            from .interp import PyRaise
            raise PyRaise('AttributeError', name)
        return Builtin(full)

    # ------------------------------------------------------------ attributes
    def value_attr(self, st, o, c, name, default=None, has_default=False):
        from .interp import PyRaise
        if isinstance(c, AVal):
            if name == 'shape':
                return tuple(c.shape)
            if name == 'ndim':
                return len(c.shape)
            if name == 'size':
                n = 1
                for d in c.shape:
                    n = imul(n, d)
                return n
            if name == 'T':
                return self.np.transpose(st, c)
            if name == 'flat':
                return self.np.ravel(st, c)
            if name == 'dtype':
                return Opaque('dtype:' + c.kind)
            if name in ARR_METHODS:
                return Method(o, name)
        elif isinstance(c, Comp):
            if name in ARR_METHODS:
                return Method(o, name)
        elif isinstance(c, LVal):
            if name in LIST_METHODS:
                return Method(o, name)
        elif isinstance(c, DVal):
            if name in DICT_METHODS:
                return Method(o, name)
        elif isinstance(c, (str, SStr)):
            if name in STR_METHODS:
                return Method(o, name)
        elif isinstance(c, Opaque):
            g = self.I.ghosts.get(c.tag)
            if g is not None:
                return self.I.get_attr(g, name, st, default, has_default)
            return Opaque(c.tag + '.' + name)
        elif isinstance(c, Builtin):
            if c.name in KNOWN_BUILTINS:
                return Method(o, name)
            return Builtin(c.name + '.' + name)
        elif isinstance(c, IterV) and c.kind == 'set' and name in ('add',):
            return Method(o, name)
        elif is_num(c):
            if name in ('astype', 'item', 'tolist', 'sum', 'copy', 'any', 'all', 'max', 'min', 'mean'):
                return Method(o, name)
            if name == 'shape' and False:
                return ()
        if has_default:
            return default
        raise PyRaise('AttributeError', name)

    def snap(self, st, x):
        """content of a value for use in a string"""
        return self.I.content(st, x)

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out += list(p.parts)
            elif isinstance(p, bool) or p is None:
                out.append(str(p))
            elif isinstance(p, int):
                out.append(str(p))
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        if not res:
            return ''
        if len(res) == 1 and isinstance(res[0], str):
            return res[0]
        return SStr(res)

    # ------------------------------------------------------------ sequences
    def norm_index(self, st, i, n, exc='IndexError'):
        I = self.I
        if isinstance(i, F):
            if not isz(i.v) and i.fin() and i.v.denominator == 1:
                i = int(i.v)
            else:
                from .interp import PyRaise
                raise PyRaise('IndexError', 'float index')
        i = as_int(i)
        if not isz(i) and not isz(n):
            from .interp import PyRaise
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                raise PyRaise(exc, 'index')
            return j
        if not isz(i):
            if i >= 0:
                I.require(st, ilt(i, n), exc, 'index')
                return i
            I.require(st, ile(-i, n), exc, 'index')
            return iadd(n, i)
        d = I.decide(st, ile(0, i))
        if d is None:
            d = I.choose(st, ile(0, i))
        if d:
            I.require(st, ilt(i, n), exc, 'index')
            return i
        I.require(st, ile(0, iadd(i, n)), exc, 'index')
        return iadd(i, n)

    def norm_slice(self, st, s, n):
        """-> (start, step, length)"""
        I = self.I
        step = 1 if s.c is None else as_int(s.c)
        if isz(step):
            if I.choose(st, ieq(step, 1)):
                step = 1
            else:
                raise Unsupported('symbolic slice step')

        def bound(b, dflt):
            if b is None:
                return dflt
            b = as_int(b)
            if not isz(b):
                if b < 0:
                    x = iadd(n, b)
                    return I.pick(st, ile(0, x), x, 0)
                return I.pick(st, ile(b, n), b, n)
            d = I.decide(st, ile(0, b))
            if d is True:
                return I.pick(st, ile(b, n), b, n)
            neg = lambda: I.pick(st, ile(0, iadd(b, n)), iadd(b, n), 0)
            if d is False:
                return neg()
            pos = I.pick(st, ile(b, n), b, n)
            return ite(ile(0, b), pos, neg())
        if step > 0:
            a, b = bound(s.a, 0), bound(s.b, n)
            ln = isub(b, a)
            ln = I.pick(st, ile(0, ln), ln, 0)
            if step != 1:
                if isz(ln):
                    q = z3.Int(T.REG.fresh('sl'))
                    ln = (Z(ln) + (step - 1)) / step
                else:
                    ln = (ln + step - 1) // step
            return a, step, ln
        if s.a is None and s.b is None:
            if step == -1:
                return isub(n, 1), -1, n
        raise Unsupported('negative slice step')

    def elem_value(self, st, v, i):
        """element of a list content"""
        return v

    def list_elem(self, st, ref, c, i):
        e = c.at(i)
        if isinstance(e, LVal):
            if isinstance(ref, Ref):
                return Path(ref.cid, (i,))
            if isinstance(ref, Path):
                return Path(ref.cid, ref.idxs + (i,))
            return self.I.alloc(st, e)
        if isinstance(e, DVal):
            if isinstance(ref, (Ref, Path)):
                self.I.frozen.add(ref.cid)
            return self.snapshot(st, e)
        if isinstance(e, OVal):
            if isinstance(ref, (Ref, Path)):
                self.I.frozen.add(ref.cid)
            r = self.I.alloc(st, e)
            self.I.frozen.add(r.cid)
            return r
        if isinstance(e, AVal):
            raise Unsupported('aggregate inside a symbolic list')
        if isinstance(e, Choice):
            return self.I.force(e, st)
        return e

    def snapshot(self, st, e):
        """a dict inside a symbolic list, read-only: any write to it or to the lists in it is refused (so is a write to the list it
        came from, which keeps the snapshot equal to the element)"""
        d = {}
        for k, v in e.d.items():
            if isinstance(v, LVal):
                v = self.I.alloc(st, v)
                self.I.frozen.add(v.cid)
            elif not (is_num(v) or isinstance(v, (str, SStr)) or v is None):
                raise Unsupported('aggregate inside a symbolic list')
            d[k] = v
        r = self.I.alloc(st, DVal(d))
        self.I.frozen.add(r.cid)
        return r

    def getitem(self, st, o, k):
        I = self.I
        from .interp import PyRaise
        o = I.force(o, st)
        if isinstance(k, tuple):
            k = tuple(I.force(x, st) for x in k)
        else:
            k = I.force(k, st)
        c = I.content(st, o)
        if isinstance(c, tuple):
            if isinstance(k, SliceV):
                a, s, n = self.norm_slice(st, k, len(c))
                if isz(a) or isz(n):
                    raise Unsupported('symbolic slice of a tuple')
                return tuple(c[a + s * q] for q in range(n))
            i = self.norm_index(st, k, len(c))
            return LVal(None, items=c).at(i)
        if isinstance(c, str):
            if isinstance(k, SliceV):
                a, s, n = self.norm_slice(st, k, len(c))
                if not isz(a) and not isz(n):
                    return ''.join(c[a + s * q] for q in range(n))
            elif not isz(k):
                return c[k]
            raise Unsupported('string index')
        if isinstance(c, SName):
            raise Unsupported('index of a symbolic name')
        if isinstance(c, SStr):
            return SStr(c.parts + ('[]',))
        if isinstance(c, DVal):
            if isinstance(k, SName):
                k = self.key_of(st, c, k)
                if k is None:
                    raise PyRaise('KeyError', 'name')
            if not isinstance(k, str):
                raise Unsupported('dict key')
            if k not in c.d:
                raise PyRaise('KeyError', k)
            v = c.d[k]
            v = I.force(v, st)
            if v is UNDEF:
                raise PyRaise('KeyError', k)
            return v
        if isinstance(c, LVal):
            if isinstance(k, SliceV):
                a, s, n = self.norm_slice(st, k, c.len)
                if not isz(a) and not isz(n) and c.items is not None:
                    return I.alloc(st, LVal(None, items=[self.list_elem(st, o, c, a + s * q) for q in range(n)]))
                if c.empty:
                    return I.alloc(st, LVal(None, items=[]))
                return I.alloc(st, LVal(n, lambda q: c.at(iadd(a, imul(s, q)))))
            i = self.norm_index(st, k, c.len)
            return self.list_elem(st, o, c, i)
        if isinstance(c, AVal):
            return self.arr_get(st, o, c, k)
        if isinstance(c, Opaque):
            return Opaque(c.tag + '[]')
        if c is None or is_num(c):
            raise PyRaise('TypeError', 'not subscriptable')
        if isinstance(c, Builtin):
            return Opaque(c.name)
        raise Unsupported('subscript of %r' % (c,))

    def dict_keys(self, st, v):
        c = self.I.content(st, v)
        out = []
        for k, x in c.d.items():
            x = self.I.force(x, st)
            if x is UNDEF:
                continue
            out.append(k)
        return out

    def append(self, st, ref, v):
        I = self.I
        c = I.content(st, ref)
        v = I.force(v, st) if isinstance(v, Choice) else v
        if c.items is not None:
            if isinstance(v, Path) and st.loops:
                v = self.embed(st, v)
            self.update_list(st, ref, LVal(None, items=c.items + [v]))
            return
        e = self.embed(st, v)
        if c.empty:
            self.update_list(st, ref, LVal(iadd(c.len, 1), lambda i: e))
            return
        n = c.len
        self.update_list(st, ref, LVal(iadd(n, 1), lambda i: vite(ieq(i, n), e, c.at(i))))

    def embed(self, st, v):
        """value to be stored inside a list of symbolic length: lists are stored by value"""
        I = self.I
        if isinstance(v, (Ref, Path)):
            c = I.content(st, v)
            if isinstance(v, Path):
                I.frozen.add(v.cid)     # shared with the list it comes from, which is read-only from here on
            if isinstance(v, Ref) and isinstance(c, (LVal, AVal, DVal)):
                I.moved[id(c)] = c      # now owned by the outer list: a later update through the old reference is refused
            if isinstance(c, LVal):
                return self.deepval(st, c)
            if isinstance(c, (AVal, DVal)):
                return c
            if isinstance(v, Ref) and isinstance(c, OVal) and st.loops:
                I.frozen.add(v.cid)     # stored by value: the object is read-only from here on
                return c
        if isinstance(v, tuple):
            return tuple(self.embed(st, x) for x in v)
        return v

    def deepval(self, st, c):
        """list content with references to lists replaced by values"""
        if c.items is not None:
            return LVal(None, items=[self.embed(st, x) for x in c.items])
        return c

    def update_list(self, st, ref, new):
        I = self.I
        if isinstance(ref, Ref):
            if id(st.heap.get(ref.cid)) in I.moved:
                raise Unsupported('update of a list that was stored in another list')
            I.writable(ref.cid)
            st.heap[ref.cid] = new
            return
        if isinstance(ref, Path):
            I.writable(ref.cid)
            st.heap[ref.cid] = self._path_set(st, st.heap[ref.cid], list(ref.idxs), new)
            return
        raise Unsupported('update of an unallocated list')

    def _path_set(self, st, c, idxs, new):
        i = idxs[0]
        if c.items is not None and not isz(i):
            it = list(c.items)
            cur = it[i]
            if isinstance(cur, Ref):
                self.I.writable(cur.cid)
                if len(idxs) == 1:
                    st.heap[cur.cid] = new
                else:
                    st.heap[cur.cid] = self._path_set(st, st.heap[cur.cid], idxs[1:], new)
                return c
            it[i] = new if len(idxs) == 1 else self._path_set(st, cur, idxs[1:], new)
            return LVal(None, items=it)
        cur = c.at(i)
        if isinstance(cur, (Ref, Choice)):
            raise Unsupported('update through a list of references')
        nv = new if len(idxs) == 1 else self._path_set(st, cur, idxs[1:], new)
        return LVal(c.len, lambda q: vite(ieq(q, i), nv, c.at(q)))

    # ------------------------------------------------------------ array indexing
    def arr_index(self, st, c, k):
        """normalise an index: list of ('i',x) ('s',start,step,len) ('n',) ('m',mask AVal/naxes) ('f', AVal)"""
        I = self.I
        from .interp import PyRaise
        ks = list(k) if isinstance(k, tuple) else [k]
        out = []
        ax = 0
        nd = len(c.shape)

        def width(x):
            x = I.content(st, x) if not isinstance(x, (SliceV, IxV)) else x
            if x is None:
                return 0
            if isinstance(x, AVal) and x.kind == 'b':
                return len(x.shape)
            return 1
        if any(self.is_ellipsis(x) for x in ks):
            p = [i for i, x in enumerate(ks) if self.is_ellipsis(x)][0]
            rest = sum(width(x) for x in ks if not self.is_ellipsis(x))
            ks = ks[:p] + [SliceV(None, None, None)] * (nd - rest) + ks[p + 1:]
        for x in ks:
            if isinstance(x, SliceV):
                if ax >= nd:
                    raise PyRaise('IndexError', 'too many indices')
                out.append(('s',) + self.norm_slice(st, x, c.shape[ax]))
                ax += 1
                continue
            x = I.content(st, x) if not is_num(x) else x
            if x is None:
                out.append(('n',))
                continue
            if isinstance(x, LVal):
                x = self.list_to_array(st, x)
            if isinstance(x, AVal):
                if x.kind == 'b':
                    m = len(x.shape)
                    for q in range(m):
                        if ax + q >= nd:
                            raise PyRaise('IndexError', 'mask')
                        I.require(st, ieq(x.shape[q], c.shape[ax + q]), 'IndexError', 'mask shape')
                    out.append(('m', x, m))
                    ax += m
                else:
                    if ax >= nd:
                        raise PyRaise('IndexError', 'too many indices')
                    out.append(('f', x))
                    ax += 1
                continue
            if is_num(x):
                if ax >= nd:
                    raise PyRaise('IndexError', 'too many indices')
                if is_boolv(x):
                    raise Unsupported('boolean scalar index')
                out.append(('i', self.norm_index(st, x, c.shape[ax])))
                ax += 1
                continue
            raise Unsupported('array index %r' % (x,))
        while ax < nd:
            out.append(('s', 0, 1, c.shape[ax]))
            ax += 1
        return out

    def is_ellipsis(self, x):
        return x is Ellipsis

    def list_to_array(self, st, x):
        r = self.np.array(st, self.I.alloc(st, x))
        return self.I.content(st, r)

    def arr_get(self, st, o, c, k):
        I = self.I
        if isinstance(k, IxV):
            return self.np.ix_get(st, c, k)
        spec = self.arr_index(st, c, k)
        kinds = {s[0] for s in spec}
        if kinds <= {'i', 's'}:
            if kinds == {'i'} or not spec:
                return c.get(tuple(s[1] for s in spec))
            if isinstance(o, Ref):
                return AView(o.cid, spec)
            if isinstance(o, AView):
                return AView(o.cid, compose(o.spec, spec))
            b = c
            shp = tuple(s[3] for s in spec if s[0] == 's')
            vw = AView(None, spec)
            return AVal(shp, c.kind, lambda idx: b.get(vw.base_idx(idx)))
        if 'm' in kinds:
            if len(spec) == 1 and spec[0][0] == 'm' and spec[0][2] == len(c.shape):
                m = spec[0][1]
                if len(c.shape) == 1:
                    return self.filter1(st, c, m)
                return I.alloc(st, Comp(m, c.get, c.kind))
            if spec[0][0] == 'm' and spec[0][2] == 1 and all(s == ('s', 0, 1, c.shape[q + 1]) or (s[0] == 's' and not isz(s[1]) and s[1] == 0 and s[2] == 1) for q, s in enumerate(spec[1:])):
                m = spec[0][1]
                cnt, sel = self.sel(m)
                return I.alloc(st, AVal((cnt,) + tuple(s[3] for s in spec[1:]), c.kind, lambda idx: c.get((sel(idx[0]),) + tuple(idx[1:]))))
            raise Unsupported('mixed mask index')
        # newaxis / fancy: read-only copy
        fs = [s for s in spec if s[0] == 'f']
        fshape = ()
        if fs:
            fshape = fs[0][1].shape
            for s in fs[1:]:
                fshape = self.np.bshape(st, fshape, s[1].shape)
            self.check_fancy(st, c, spec)
        fpos = [q for q, s in enumerate(spec) if s[0] == 'f']
        if fpos and fpos != list(range(fpos[0], fpos[-1] + 1)):
            raise Unsupported('separated fancy indices')
        shp = []
        for q, s in enumerate(spec):
            if s[0] == 's':
                shp.append(s[3])
            elif s[0] == 'n':
                shp.append(1)
            elif s[0] == 'f' and q == fpos[0]:
                shp += list(fshape)

        def get(idx):
            b = []
            p = 0
            fi = None
            for s in spec:
                if s[0] == 'i':
                    b.append(s[1])
                elif s[0] == 's':
                    b.append(iadd(s[1], imul(s[2], idx[p])))
                    p += 1
                elif s[0] == 'n':
                    p += 1
                else:
                    if fi is None:
                        fi = idx[p:p + len(fshape)]
                        p += len(fshape)
                    b.append(self.np.bget(s[1], fi, fshape))
            # negative fancy indices were excluded by check_fancy
            return c.get(tuple(b))
        inv = None
        return AVal(shp, c.kind, get, inv) if 'f' not in kinds else I.alloc(st, AVal(shp, c.kind, get, inv))

    def check_fancy(self, st, c, spec):
        ax = 0
        for s in spec:
            if s[0] == 'f':
                a = s[1]
                qs = [z3.Int(T.REG.fresh('qf')) for _ in a.shape]
                s2 = st.copy()
                for q, n in zip(qs, a.shape):
                    s2.assume(ile(0, q))
                    s2.assume(ilt(q, n))
                v = a.get(tuple(qs))
                if a.kind != 'i':
                    from .interp import PyRaise
                    raise PyRaise('IndexError', 'non-integer index array')
                if self.I.decide(s2, band(ile(0, v), ilt(v, c.shape[ax]))) is not True:
                    raise Unsupported('fancy index not provably in range')
                ax += 1
            elif s[0] == 'n':
                pass
            elif s[0] == 'm':
                ax += s[2]
            else:
                ax += 1

    def sel(self, m):
        """selection of a 1-D mask"""
        q = T.bound_int('m')
        cond = m.get((q,))
        return T.mk_filter(m.shape[0], q, cond)

    def filter1(self, st, c, m):
        if not isz(m.shape[0]) and m.shape[0] <= 12:
            pass
        cnt, sel = self.sel(m)
        get = lambda idx: c.get((sel(idx[0]),))
        q = T.bound_int('m')
        x = c.get((q,)) if c.kind == 'f' else None
        if isinstance(x, F) and (isz(x.nan) or isz(x.inf)):
            # the selected elements satisfy the mask: a mask that excludes nan (inf) leaves no nan (inf)
            sub = []
            for a in T.conjuncts(Z(m.get((q,)))):
                a = z3.simplify(a)
                sub.append((a.arg(0), z3.BoolVal(False)) if z3.is_not(a) else (a, z3.BoolVal(True)))

            def gone(b):
                return b is False or (isz(b) and z3.is_false(z3.simplify(z3.substitute(z3.simplify(b), *sub))))
            if sub and (gone(x.nan) or gone(x.inf)):
                gn, gi = gone(x.nan), gone(x.inf)
                full = get

                def get(idx):
                    y = toF(full(idx))
                    return F(y.v, False if gn else y.nan, False if gi else y.inf)
        return self.I.alloc(st, AVal((cnt,), c.kind, get, note=('filter', m, c)))

    def setitem(self, st, o, k, v, aug=False):
        I = self.I
        from .interp import PyRaise
        o = I.force(o, st)
        v = I.force(v, st)
        if isinstance(k, tuple):
            k = tuple(I.force(x, st) for x in k)
        else:
            k = I.force(k, st)
        c = I.content(st, o)
        if isinstance(c, DVal):
            if isinstance(k, SName):
                k = self.key_of(st, c, k)
                if k is None:
                    raise PyRaise('KeyError', 'name')
            if not isinstance(k, str):
                raise Unsupported('dict key')
            I.writable(o.cid)
            st.heap[o.cid] = DVal({**c.d, k: v}, c.note)
            return
        if isinstance(c, LVal):
            if isinstance(k, SliceV):
                raise Unsupported('slice assignment to a list')
            i = self.norm_index(st, k, c.len)
            if c.items is not None and not isz(i):
                it = list(c.items)
                it[i] = v
                self.update_list(st, o, LVal(None, items=it))
                return
            e = self.embed(st, v)
            self.update_list(st, o, LVal(c.len, lambda q: vite(ieq(q, i), e, c.at(q))))
            return
        if isinstance(c, AVal):
            self.arr_set(st, o, c, k, v)
            return
        if isinstance(c, Opaque):
            return
        if isinstance(c, (tuple, str)) or c is None or is_num(c):
            raise PyRaise('TypeError', 'item assignment')
        raise Unsupported('item assignment on %r' % (c,))

    def cast_store(self, kind, x):
        if kind == 'i' and isinstance(x, F):
            if x.nan is True:
                from .interp import PyRaise
                raise PyRaise('ValueError', 'nan to int')
            if not isz(x.v) and x.fin():
                return int(x.v)
            if isz(x.v) and z3.is_app_of(x.v, z3.Z3_OP_TO_REAL) and x.fin():
                return x.v.arg(0)
            raise Unsupported('float stored into an integer array')
        if kind == 'b':
            if is_boolv(x):
                return x
            return bnot(ieq(as_int(x), 0)) if is_intv(x) else bnot(T.feq(toF(x), toF(0)))
        if kind == 'o':
            return x
        return kcast(kind, x)

    def arr_set(self, st, o, c, k, v):
        I = self.I
        if not isinstance(o, (Ref, AView)):
            raise Unsupported('store into a temporary array')
        spec = self.arr_index(st, c, k)
        vc = I.content(st, v)
        if isinstance(vc, LVal):
            vc = self.list_to_array(st, vc)
        old = c.get
        kind = c.kind
        kinds = {s[0] for s in spec}
        if kinds <= {'i', 's'}:
            shp = tuple(s[3] for s in spec if s[0] == 's')
            if isinstance(vc, AVal):
                src = self.np.bcast_to(st, vc, shp)
                val = lambda rel: src.get(rel)
            elif isinstance(vc, Comp):
                raise Unsupported('masked value stored into a slice')
            elif is_num(vc):
                val = lambda rel: vc
            elif kind == 'o':
                val = lambda rel: vc
            else:
                raise Unsupported('store %r' % (vc,))

            def get(idx):
                cond, rel = region(spec, idx)
                if cond is False:
                    return old(idx)
                x = self.cast_store(kind, val(rel))
                if cond is True:
                    return x
                return vite(cond, x, old(idx))
        elif spec and spec[0][0] == 'm' and all(s[0] == 's' and not isz(s[1]) and s[1] == 0 and s[2] == 1 for s in spec[1:]):
            m = spec[0][1]
            nm = spec[0][2]
            if isinstance(vc, Comp):
                if vc.mask is not m and not self.same_mask(st, vc.mask, m):
                    raise Unsupported('store of a differently masked value')
                val = lambda idx: vc.get(idx)
            elif is_num(vc):
                val = lambda idx: vc
            elif isinstance(vc, AVal) and vc.note and vc.note[0] == 'filter' and nm == 1 and len(c.shape) == 1 and \
                    (vc.note[1] is m or self.same_mask(st, vc.note[1], m)):
                val = lambda idx: vc.note[2].get(idx)
            elif isinstance(vc, AVal) and nm == 1 and len(c.shape) == 1 and False:
                val = None
            else:
                raise Unsupported('masked store of %r' % (vc,))

            def get(idx):
                mm = m.get(tuple(idx[:nm]))
                if mm is False:
                    return old(idx)
                return vite(mm, self.cast_store(kind, val(idx)), old(idx))
        elif kinds <= {'f'} and len(spec) == 1 and spec[0][1].inv is not None:
            a = spec[0][1]
            if isinstance(vc, AVal):
                src = self.np.bcast_to(st, vc, a.shape)
                val = lambda j: src.get((j,))
            elif is_num(vc):
                val = lambda j: vc
            else:
                raise Unsupported('fancy store')
            self.check_fancy(st, c, spec)

            def get(idx):
                cond, j = a.inv(idx[0])
                return vite(cond, self.cast_store(kind, val(j)), old(idx))
        else:
            raise Unsupported('store through index %r' % (sorted(kinds),))
        self.write_array(st, o, AVal(c.shape, kind, get))

    def same_mask(self, st, a, b):
        if len(a.shape) != len(b.shape):
            return False
        qs = tuple(z3.Int(T.REG.fresh('qm')) for _ in a.shape)
        x, y = a.get(qs), b.get(qs)
        if T.same(x, y):
            return True
        s2 = st.copy()
        for q, n in zip(qs, a.shape):
            s2.assume(ile(0, q))
            s2.assume(ilt(q, n))
        return self.I.decide(s2, beq(x, y)) is True

    def write_array(self, st, o, new):
        """replace the content of an array value (view writes go through to the base)"""
        if isinstance(o, Ref):
            st.heap[o.cid] = new
            return
        base = st.heap[o.cid]
        old = base.get
        spec = o.spec

        def get(idx):
            cond, rel = region(spec, idx)
            if cond is False:
                return old(idx)
            x = self.cast_store(base.kind, new.get(rel))
            return vite(cond, x, old(idx)) if cond is not True else x
        st.heap[o.cid] = AVal(base.shape, base.kind, get)

    def aug_array(self, st, cur, op, rhs):
        c = self.I.content(st, cur)
        r = self.binop(st, op, cur, rhs)
        rc = self.I.content(st, r)
        if not isinstance(rc, AVal) or len(rc.shape) != len(c.shape):
            raise Unsupported('in-place array operation')
        if c.kind == 'i' and rc.kind == 'f':
            from .interp import PyRaise
            raise PyRaise('TypeError', 'in-place casting')
        self.write_array(st, cur, AVal(c.shape, c.kind, lambda idx: self.cast_store(c.kind, rc.get(idx))))

    def reshape(self, st, c, v):
        return self.np.reshape_val(st, c, v)

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b):
        I = self.I
        from .interp import PyRaise
        a, b = I.force(a, st), I.force(b, st)
        ca, cb = I.content(st, a), I.content(st, b)
        if isinstance(ca, Opaque) or isinstance(cb, Opaque):
            return Opaque('op')
        if isinstance(ca, (AVal, Comp)) or isinstance(cb, (AVal, Comp)):
            if isinstance(ca, LVal):
                ca = self.list_to_array(st, ca)
            if isinstance(cb, LVal):
                cb = self.list_to_array(st, cb)
            if isinstance(ca, (str, SStr)) or isinstance(cb, (str, SStr)) or ca is None or cb is None:
                raise PyRaise('TypeError', 'array operand')
            if isinstance(op, ast.Div) and self.proper_division(st, ca, cb):
                return self.np.elementwise(st, plain_div, opkind(op), ca, cb)
            return self.np.elementwise(st, lambda x, y: self.sbin(st, op, x, y, True), opkind(op), ca, cb)
        if isinstance(ca, (str, SStr)) or isinstance(cb, (str, SStr)):
            if isinstance(op, ast.Add) and isinstance(ca, (str, SStr)) and isinstance(cb, (str, SStr)):
                return self.mkstr([ca, cb])
            if isinstance(op, ast.Mod) and isinstance(ca, (str, SStr)):
                return SStr([ca, '%', self.snap(st, b) if not isinstance(cb, tuple) else 'args'])
            if isinstance(op, ast.Mult) and isinstance(ca, str) and isinstance(cb, int):
                return ca * cb
            raise PyRaise('TypeError', 'string operand')
        if isinstance(ca, LVal) or isinstance(cb, LVal):
            return self.list_op(st, op, a, ca, b, cb)
        if isinstance(ca, tuple) and isinstance(cb, tuple) and isinstance(op, ast.Add):
            return ca + cb
        if isinstance(ca, tuple) and isinstance(op, ast.Mult) and isinstance(cb, int):
            return ca * cb
        if ca is None or cb is None:
            raise PyRaise('TypeError', 'NoneType operand')
        if is_num(ca) and is_num(cb):
            return self.sbin(st, op, ca, cb, False)
        if isinstance(ca, OV) or isinstance(cb, OV):
            raise Unsupported('operand of unknown type')
        if isinstance(ca, (DVal, OVal, IterV, Closure, Bound)) or isinstance(cb, (DVal, OVal, IterV, Closure, Bound)):
            raise PyRaise('TypeError', 'operand')
        raise PyRaise('TypeError', 'operand types')

    def list_op(self, st, op, a, ca, b, cb):
        I = self.I
        from .interp import PyRaise
        if isinstance(op, ast.Add):
            if not (isinstance(ca, LVal) and isinstance(cb, LVal)):
                raise PyRaise('TypeError', 'list + other')
            return I.alloc(st, self.concat(st, a, ca, b, cb))
        if isinstance(op, ast.Mult):
            l, lv, n = (ca, a, cb) if isinstance(ca, LVal) else (cb, b, ca)
            if not is_intv(n):
                raise PyRaise('TypeError', 'list * other')
            if l.items is not None and not isz(n) and len(l.items) * max(n, 0) <= 64:
                return I.alloc(st, LVal(None, items=l.items * max(n, 0)))
            if l.items is not None and len(l.items) == 1:
                e = l.items[0]
                ee = self.embed(st, e)
                if isinstance(ee, (LVal, AVal, DVal)):
                    raise Unsupported('repetition of an aggregate')
                ln = I.pick(st, ile(0, n), n, 0)
                return I.alloc(st, LVal(ln, lambda i: ee))
            if l.empty:
                return I.alloc(st, LVal(None, items=[]))
            e0 = l.at(0)
            if isinstance(e0, (LVal, AVal, DVal, Ref)):
                raise Unsupported('repetition of aggregates')
            nn = I.pick(st, ile(0, n), n, 0)
            m = l.len
            total = self.np.mulname(nn, m)
            return I.alloc(st, LVal(total, lambda i: l.at(self.np.imod(i, m))))
        raise PyRaise('TypeError', 'list operand')

    def concat(self, st, a, ca, b, cb):
        if ca.items is not None and cb.items is not None:
            return LVal(None, items=[self.list_elem(st, a, ca, i) for i in range(len(ca.items))] +
                        [self.list_elem(st, b, cb, i) for i in range(len(cb.items))])
        da, db = self.deepval(st, ca), self.deepval(st, cb)
        if da.empty and (da.items is not None):
            return db
        if db.empty and (db.items is not None):
            return da
        n = da.len
        return LVal(iadd(n, db.len), lambda i: vite(ilt(i, n), da.at(i), db.at(isub(i, n))) if isz(i) or isz(n) else (da.at(i) if i < n else db.at(i - n)))

    def sbin(self, st, op, a, b, arr):
        """scalar arithmetic"""
        I = self.I
        from .interp import PyRaise
        if isinstance(a, OV) or isinstance(b, OV):
            raise Unsupported('operand of unknown type')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if is_boolv(a) and is_boolv(b):
                return band(a, b) if isinstance(op, ast.BitAnd) else bor(a, b) if isinstance(op, ast.BitOr) else bnot(beq(a, b))
            if isinstance(a, int) and isinstance(b, int):
                return a & b if isinstance(op, ast.BitAnd) else a | b if isinstance(op, ast.BitOr) else a ^ b
            raise Unsupported('bit operation')
        fl = isinstance(a, F) or isinstance(b, F)
        if not fl and not isinstance(op, (ast.Div, ast.Pow)):
            x, y = as_int(a), as_int(b)
            if isinstance(op, ast.Add):
                return iadd(x, y)
            if isinstance(op, ast.Sub):
                return isub(x, y)
            if isinstance(op, ast.Mult):
                return self.np.mulname(x, y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if not arr:
                    I.require(st, bnot(ieq(y, 0)), 'ZeroDivisionError', 'integer division')
                return self.np.idiv(st, x, y) if isinstance(op, ast.FloorDiv) else self.np.imod(x, y)
            raise Unsupported('integer operator %s' % type(op).__name__)
        x, y = toF(a), toF(b)
        if isinstance(op, ast.Add):
            return T.fadd(x, y)
        if isinstance(op, ast.Sub):
            return T.fsub(x, y)
        if isinstance(op, ast.Mult):
            return T.fmul(x, y)
        if isinstance(op, ast.Div):
            return self.fdiv(st, x, y, arr)
        if isinstance(op, ast.Pow):
            r = self.np.power(x, y)
            if not fl and not isz(b) and b >= 0:
                if not isz(r.v):
                    return int(r.v)
                t = a
                for _ in range(b - 1):
                    t = imul(t, a)
                return t if b > 0 else 1
            return r
        if isinstance(op, ast.FloorDiv):
            return self.np.ffloor(self.fdiv(st, x, y, arr))
        if isinstance(op, ast.Mod):
            q = self.np.ffloor(self.fdiv(st, x, y, arr))
            return T.fsub(x, T.fmul(q, y))
        raise Unsupported('operator %s' % type(op).__name__)

    def proper_division(self, st, a, b):
        """no element of b is zero or infinite and none of a infinite, under the path condition"""
        arrs = [x for x in (a, b) if isinstance(x, (AVal, Comp))]
        shape, hyp = (), []
        for x in arrs:
            m = x.mask if isinstance(x, Comp) else x
            sh = m.shape
            if len(sh) > len(shape):
                shape = sh
        g = [T.bound_int('g') for _ in shape]
        hyp = [band(ile(0, i), ilt(i, n)) for i, n in zip(g, shape)]

        def el(x):
            if isinstance(x, Comp):
                return x.get(tuple(g))
            return self.np.bget(x, tuple(g), shape) if isinstance(x, AVal) else x
        for x in arrs:
            if isinstance(x, Comp):
                hyp.append(x.mask.get(tuple(g)))
        x, y = toF(el(a)), toF(el(b))
        if y.fin() and not isz(y.v):
            return y.v != 0 and x.inf is False
        ok = bor(y.nan, band(bnot(y.inf), bnot(T.req(y.v, Fraction(0)))))
        if x.inf is not False:
            ok = band(ok, bor(x.nan, bnot(x.inf)))
        return self.I.decide(st, T.imp(band(*hyp), ok)) is True

    def fdiv(self, st, x, y, arr):
        if y.fin() and not isz(y.v) and y.v != 0:
            return T.fdiv(x, y)
        if st is not None and not arr:
            nz = band(bnot(y.nan), bnot(y.inf), bnot(T.req(y.v, Fraction(0))))
            if self.I.decide(st, nz) is True:
                if x.inf is False:
                    return F(T.rdiv(x.v, y.v), x.nan, False)
        return T.fdiv(x, y)

    def unop(self, st, op, v):
        from .interp import PyRaise
        c = self.I.content(st, v)
        if isinstance(op, ast.USub):
            if isinstance(c, (AVal, Comp)):
                return self.np.elementwise(st, lambda x: self.neg(x), lambda k: 'i' if k == 'b' else k, c)
            if is_num(c):
                return self.neg(c)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(c, (AVal, Comp)) and c.kind == 'b':
                return self.np.elementwise(st, lambda x: bnot(x), lambda k: 'b', c)
            if isz(c) and z3.is_bool(c):
                return bnot(c)      # numpy bool; Python's ~True is not supported
            if isinstance(c, bool):
                return bnot(c)
        if isinstance(c, Opaque):
            return Opaque('op')
        raise PyRaise('TypeError', 'unary operand')

    def neg(self, x):
        if isinstance(x, F):
            return T.fneg(x)
        return isub(0, as_int(x))

    def compare(self, st, op, l, r):
        I = self.I
        from .interp import PyRaise
        cl, cr = I.content(st, l), I.content(st, r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            x = self.identical(st, l, cl, r, cr)
            return x if isinstance(op, ast.Is) else bnot(x)
        if isinstance(op, (ast.In, ast.NotIn)):
            x = self.contains(st, cr, r, cl)
            return x if isinstance(op, ast.In) else bnot(x)
        if isinstance(cl, Opaque) or isinstance(cr, Opaque):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                x = self.equal(st, cl, cr)
                return x if isinstance(op, ast.Eq) else bnot(x)
            return I.fresh(st, 'opaque', z3.BoolSort())[0]
        if isinstance(cl, (AVal, Comp)) or isinstance(cr, (AVal, Comp)):
            if isinstance(cl, LVal):
                cl = self.list_to_array(st, cl)
            if isinstance(cr, LVal):
                cr = self.list_to_array(st, cr)
            if cl is None or cr is None or isinstance(cl, str) or isinstance(cr, str):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    c = cl if isinstance(cl, AVal) else cr
                    return I.alloc(st, AVal(c.shape, 'b', lambda idx: isinstance(op, ast.NotEq)))
                raise PyRaise('TypeError', 'comparison')
            return self.np.elementwise(st, lambda x, y: self.scmp(op, x, y), lambda *k: 'b', cl, cr)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            x = self.equal(st, cl, cr)
            return x if isinstance(op, ast.Eq) else bnot(x)
        if is_num(cl) and is_num(cr):
            return self.scmp(op, cl, cr)
        if isinstance(cl, str) and isinstance(cr, str):
            return {ast.Lt: cl < cr, ast.LtE: cl <= cr, ast.Gt: cl > cr, ast.GtE: cl >= cr}[type(op)]
        if isinstance(cl, OV) or isinstance(cr, OV):
            raise Unsupported('comparison of unknown values')
        raise PyRaise('TypeError', 'comparison')

    def scmp(self, op, a, b):
        if isinstance(a, OV) or isinstance(b, OV):
            raise Unsupported('comparison of unknown values')
        if isinstance(a, F) or isinstance(b, F):
            x, y = toF(a), toF(b)
            if isinstance(op, ast.Lt):
                return T.flt(x, y)
            if isinstance(op, ast.LtE):
                return T.fle(x, y)
            if isinstance(op, ast.Gt):
                return T.flt(y, x)
            if isinstance(op, ast.GtE):
                return T.fle(y, x)
            if isinstance(op, ast.Eq):
                return T.feq(x, y)
            return bnot(T.feq(x, y))
        if is_boolv(a) and is_boolv(b) and isinstance(op, (ast.Eq, ast.NotEq)):
            return beq(a, b) if isinstance(op, ast.Eq) else bnot(beq(a, b))
        x, y = as_int(a), as_int(b)
        if isinstance(op, ast.Lt):
            return ilt(x, y)
        if isinstance(op, ast.LtE):
            return ile(x, y)
        if isinstance(op, ast.Gt):
            return ilt(y, x)
        if isinstance(op, ast.GtE):
            return ile(y, x)
        if isinstance(op, ast.Eq):
            return ieq(x, y)
        return bnot(ieq(x, y))

    def identical(self, st, l, cl, r, cr):
        for x, y in ((cl, cr), (cr, cl)):
            if y is None:
                if isinstance(x, OV):
                    return x.t == OBJ_NONE
                return x is None
            if isinstance(y, bool):
                if is_boolv(x):
                    return beq(x, y)
                if isinstance(x, OV):
                    raise Unsupported('identity of unknown value')
                return False
        if isinstance(l, Ref) and isinstance(r, Ref):
            return l == r
        if isinstance(cl, Opaque) and isinstance(cr, Opaque):
            return cl.tag == cr.tag
        if isinstance(cl, Builtin) and isinstance(cr, Builtin):
            return cl.name == cr.name
        if type(cl) is not type(cr):
            return False
        raise Unsupported('identity comparison')

    def equal(self, st, a, b):
        I = self.I
        a, b = I.content(st, a), I.content(st, b)
        if is_num(a) and is_num(b):
            return self.scmp(ast.Eq(), a, b)
        if a is None or b is None:
            if isinstance(a, OV) or isinstance(b, OV):
                x = a if isinstance(a, OV) else b
                return x.t == OBJ_NONE
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return band(*[self.equal(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, LVal) and isinstance(b, LVal):
            if a.items is None and b.items is None and (isz(a.len) or isz(b.len)):
                raise Unsupported('equality of symbolic lists')
            n = len(a.items) if a.items is not None else len(b.items)
            le = ieq(a.len, b.len)
            if le is False:
                return False
            return band(le, *[self.equal(st, a.at(i), b.at(i)) for i in range(n)])
        if isinstance(a, OV) or isinstance(b, OV):
            raise Unsupported('equality of unknown values')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag.startswith('id:') and b.tag.startswith('id:'):
                return a.tag == b.tag
            return I.fresh(st, 'opaque', z3.BoolSort())[0]
        if isinstance(a, SName) and isinstance(b, str):
            return a.eq(b)
        if isinstance(b, SName) and isinstance(a, str):
            return b.eq(a)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
                return True
            return I.fresh(st, 'streq', z3.BoolSort())[0]
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        return False

    def key_of(self, st, c, k):
        """the key of the dict c that the symbolic name k equals, or None"""
        for x in c.d:
            if self.I.choose(st, k.eq(x)):
                return x
        return None

    def contains(self, st, c, ref, x):
        I = self.I
        from .interp import PyRaise
        if isinstance(c, DVal):
            if isinstance(x, SName):
                return bor(*[band(x.eq(key), self.contains(st, c, ref, key)) for key in c.d])
            if not isinstance(x, str):
                raise Unsupported('dict membership')
            if x not in c.d:
                return False
            v = c.d[x]
            if isinstance(v, Choice):
                return bor(*[g for g, y in v.alts if y is not UNDEF])
            return v is not UNDEF
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (tuple, LVal)) or isinstance(c, IterV):
            if isinstance(c, tuple):
                items = list(c)
            elif isinstance(c, IterV):
                if isz(c.len):
                    raise Unsupported('membership in a symbolic sequence')
                items = [c.fn(i, st) for i in range(c.len)]
            elif c.items is not None:
                items = c.items
            elif is_num(x) and isz(c.len):
                q = T.bound_int('in')
                e = c.at(q)
                if not is_num(e):
                    raise Unsupported('membership in a symbolic list')
                return ilt(0, T.mk_count(c.len, q, self.scmp(ast.Eq(), e, x)))
            else:
                raise Unsupported('membership in a symbolic list')
            return bor(*[self.equal(st, y, x) for y in items])
        if isinstance(c, AVal):
            if not is_num(x):
                raise Unsupported('array membership')
            return self.np.any_cell(st, c, lambda v: self.scmp(ast.Eq(), v, x))
        if isinstance(c, Opaque):
            return I.fresh(st, 'in', z3.BoolSort())[0]
        if isinstance(c, SStr):
            return I.fresh(st, 'in', z3.BoolSort())[0]
        raise PyRaise('TypeError', 'membership')

    def logical(self, st, a, b):
        if is_boolv(a) and is_boolv(b):
            return band(a, b)
        ta = self.I.truth(a, st)
        if self.I.choose(st, ta):
            return b
        return a

    # ------------------------------------------------------------ calls
    def call_builtin(self, st, name, args, kw):
        from . import libcall
        return libcall.call(self, st, name, args, kw)

    def call_method(self, st, obj, name, args, kw):
        from . import libcall
        return libcall.method(self, st, obj, name, args, kw)

    def call_opaque(self, st, fn, args, kw):
        from . import libcall
        return libcall.opaque(self, st, fn, args, kw)


LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50, 'NOTSET': 0}
LOGGING_OTHER = {'BASIC_FORMAT'}


def compose(base, spec):
    """view of a view"""
    out = []
    p = 0
    for s in base:
        if s[0] == 'i':
            out.append(s)
            continue
        k = spec[p]
        p += 1
        if k[0] == 'i':
            out.append(('i', iadd(s[1], imul(s[2], k[1]))))
        else:
            out.append(('s', iadd(s[1], imul(s[2], k[1])), imul(s[2], k[2]), k[3]))
    return tuple(out)


def region(spec, idx):
    """(condition that base index idx lies in the region, index relative to the region)"""
    cs, rel = [], []
    for s, x in zip(spec, idx):
        if s[0] == 'i':
            c = ieq(x, s[1])
        else:
            d = isub(x, s[1])
            if s[2] == 1:
                c = band(ile(0, d), ilt(d, s[3]))
                rel.append(d)
            elif s[2] == -1:
                nd = isub(0, d)
                c = band(ile(0, nd), ilt(nd, s[3]))
                rel.append(nd)
            else:
                q = d // s[2] if not isz(d) else Z(d) / s[2]
                m = d % s[2] if not isz(d) else Z(d) % s[2]
                c = band(ile(0, d), ieq(m, 0), ilt(q, s[3]))
                rel.append(q)
        if c is False:
            return False, ()
        cs.append(c)
    return band(*cs), tuple(rel)


def opkind(op):
    if isinstance(op, ast.Div):
        return lambda *k: 'f'
    if isinstance(op, ast.Pow):
        return lambda a, b: 'i' if a in 'ib' and b in 'ib' else 'f'
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        return lambda a, b: V.join_kind(a, b)

    def k(a, b):
        j = V.join_kind(a, b)
        return 'i' if j == 'b' else j
    return k


def plain_div(x, y):
    x, y = toF(x), toF(y)
    return F(T.rdiv(x.v, y.v), bor(x.nan, y.nan), False)
