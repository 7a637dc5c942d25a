"""Symbolic interpreter for the Python subset used by dorado."""
import ast
import os
from fractions import Fraction
import z3
from . import terms as T
from .terms import (F, Unsupported, isz, band, bor, bnot, imp, ite, beq, ieq, ilt, ile, iadd, isub, imul, toF, NAN)
from .values import *
from . import values as V


class PyRaise(Exception):
    def __init__(self, exc, msg=None):
        self.exc, self.msg = exc, msg


class ForkEx(Exception):
    pass


class NoFork(Exception):
    pass


EXC_PARENTS = {
    'IndexError': ['LookupError', 'Exception'], 'KeyError': ['LookupError', 'Exception'],
    'AttributeError': ['Exception'], 'TypeError': ['Exception'], 'ValueError': ['Exception'],
    'NameError': ['Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
    'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'AssertionError': ['Exception'],
    'RuntimeError': ['Exception'], 'OverflowError': ['ArithmeticError', 'Exception'],
    'UnpicklingError': ['Exception'], 'FileNotFoundError': ['OSError', 'Exception'], 'OSError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'],
}
EXC_NAMES = set(EXC_PARENTS) | {'Exception', 'LookupError', 'BaseException', 'Warning', 'DeprecationWarning',
                                'UserWarning', 'ArithmeticError', 'RuntimeWarning', 'FutureWarning'}


class State:
    __slots__ = ('frames', 'heap', 'pc', 'events', 'occ', 'loops', 'path')

    def __init__(self):
        self.frames, self.heap, self.pc, self.events = {}, {}, [], []
        self.occ, self.loops, self.path = {}, (), ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.occ = dict(self.occ)
        s.loops, s.path = self.loops, self.path
        return s

    def assign(self, o):
        self.frames, self.heap, self.pc, self.events = o.frames, o.heap, o.pc, o.events
        self.occ, self.loops, self.path = o.occ, o.loops, o.path

    def assume(self, c):
        if c is not True and not (isz(c) and z3.is_true(c)):
            self.pc.append(T.Z(c))


class Event:
    __slots__ = ('kind', 'payload', 'guard', 'binders')

    def __init__(self, kind, payload, guard=True, binders=()):
        self.kind, self.payload, self.guard, self.binders = kind, payload, guard, tuple(binders)


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.globals = {}
        self.pending = {}


class Interp:
    UNROLL = 12

    def __init__(self, root='/repo/dorado'):
        self.root = root
        self.mods = {}
        self.script, self.pos = [], 0
        self.nofork = 0
        self.ncid = 0
        self.frozen = set()
        self.ext = {}              # contracts of external functions and of methods of opaque objects (by tag)
        self.ghosts = {}           # tag of an opaque object -> object that carries its attributes
        self.nfid = 0
        self.contracts = {}        # qualified function name -> contract application
        self.moved = {}
        self.obligs = []           # obligations raised by loops and callee preconditions
        self.hints = []           # facts assumed only while loop descriptions are inferred (never in a verified run)
        self.invs = []             # view invariants assumed/checked at loop heads
        self.cache = {}
        self.keep = []
        self.depth = 0
        self.called = set()
        self.loopcount = {}
        self.loop_notes = []
        self.dtimeout = 3000
        V.init_box()
        from . import lib, loops
        self.lib = lib.Lib(self)
        self.loopsum = loops

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = Module(name, os.path.join(self.root, name + '.py'))
        self.mods[name] = m
        for s in m.tree.body:
            self._top(m, s)
        return m

    def _top(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                nm = a.asname or a.name.split('.')[0]
                m.globals[nm] = self._import(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                m.globals[a.asname or a.name] = ('from', s.module, s.level, a.name)
        elif isinstance(s, ast.FunctionDef):
            m.globals[s.name] = Closure(s, None, m.name, s.name, qual=m.name + '.' + s.name)
        elif isinstance(s, ast.ClassDef):
            m.globals[s.name] = ClassV(s.name, s, m.name)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            m.globals[s.targets[0].id] = ('lazy', s.value)
        elif isinstance(s, (ast.Expr, ast.Pass)):
            pass
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self._top(m, x)

    def _import(self, name):
        if name.startswith('dorado.') or name == 'dorado':
            return ModuleV(name, user=name.split('.')[1] if '.' in name else '')
        return ModuleV(name)

    def from_import(self, mod, level, name):
        if level or (mod or '').startswith('dorado'):
            base = (mod or '').replace('dorado.', '').replace('dorado', '')
            if base == '':
                return ModuleV('dorado.' + name, user=name)
            return self.mod_global(base, name)
        if mod == '__future__':
            return None
        if mod == 'builtins':
            return Builtin(name)
        return self.lib.module_attr(mod, name)

    def mod_global(self, mname, name, st=None):
        m = self.module(mname)
        if name not in m.globals:
            raise KeyError(name)
        v = m.globals[name]
        if isinstance(v, tuple) and v and v[0] == 'from':
            v = self.from_import(*v[1:])
            m.globals[name] = v
        elif isinstance(v, tuple) and v and v[0] == 'lazy':
            s0 = State()
            self.nfid += 1
            s0.frames[self.nfid] = {'$parent': None, '$mod': mname}
            try:
                v = self.eval(v[1], s0, self.nfid)
            except PyRaise:
                raise Unsupported('module constant ' + name)
            if isinstance(v, Ref):
                raise Unsupported('mutable module constant ' + name)
            m.globals[name] = v
        return v

    # ------------------------------------------------------------ state helpers
    def writable(self, cid):
        if cid in self.frozen:
            raise Unsupported('write to a dict of a symbolic list, or to the list')

    def alloc(self, st, content):
        self.ncid += 1
        st.heap[self.ncid] = content
        return Ref(self.ncid)

    def new_frame(self, st, parent, mod):
        self.nfid += 1
        st.frames[self.nfid] = {'$parent': parent, '$mod': mod}
        return self.nfid

    def fresh(self, st, base, sort, where=None):
        """symbol named after the dynamic site (path, occurrence), applied to the enclosing loop indices"""
        key = (base, where) + st.path
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        nm = '%s@%s#%d' % (base, '/'.join(str(x) for x in ((where,) if where is not None else ()) + st.path), n)
        if st.loops:
            d = z3.Function(nm, *([z3.IntSort()] * len(st.loops) + [sort]))
            return d(*st.loops), d
        c = z3.Const(nm, sort)
        return c, None

    def decide(self, st, cond, timeout=None):
        """True / False when the path condition settles cond, else None"""
        if isinstance(cond, bool):
            return cond
        cond = T.Z(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        nc = T.Z(bnot(cond))
        nid = nc.get_id()
        for p in st.pc:
            i = p.get_id()
            if i == cid:
                return True
            if i == nid:
                return False
        key = (tuple(p.get_id() for p in st.pc), cid)
        if key in self.cache:
            return self.cache[key]
        self.keep.append((list(st.pc), cond, nc))
        t = timeout or self.dtimeout
        T.STATS.feas += 1
        import time
        t0 = time.time()
        q0, t1 = T.STATS.queries, T.STATS.time
        r = None
        if T.check(st.pc + [nc], t, rounds=3) == 'unsat':
            r = True
        elif T.check(st.pc + [cond], t, rounds=3) == 'unsat':
            r = False
        T.STATS.queries, T.STATS.time = q0, t1
        T.STATS.feas_time += time.time() - t0
        self.cache[key] = r
        return r

    def pick(self, st, cond, a, b):
        """ite with solver pruning"""
        d = self.decide(st, cond)
        if d is True:
            return a() if callable(a) else a
        if d is False:
            return b() if callable(b) else b
        return ite(cond, a() if callable(a) else a, b() if callable(b) else b)

    def choose(self, st, cond):
        """case split: returns a Python bool, forking the enclosing statement when undecided"""
        d = self.decide(st, cond)
        if d is not None:
            return d
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.script):
            r = self.script[self.pos]
            self.pos += 1
            st.pc.append(T.Z(cond) if r else T.Z(bnot(cond)))
            return r
        raise ForkEx()

    def require(self, st, cond, exc, msg=None):
        if not self.choose(st, cond):
            raise PyRaise(exc, msg)

    def run_forking(self, fn, st):
        """all outcomes of fn(state) as [(kind, state, payload)], kind in ok/raise"""
        save = (self.script, self.pos, self.nofork)
        work = [[]]
        outs = []
        try:
            while work:
                if len(work) + len(outs) > 256:
                    raise Unsupported('too many paths')
                sc = work.pop()
                s2 = st.copy()
                self.script, self.pos, self.nofork = sc, 0, 0
                try:
                    r = fn(s2)
                    outs.append(('ok', s2, r))
                except ForkEx:
                    work.append(sc + [False])
                    work.append(sc + [True])
                except PyRaise as e:
                    outs.append(('raise', s2, e))
        finally:
            self.script, self.pos, self.nofork = save
        return outs

    # ------------------------------------------------------------ merging
    def merge(self, states):
        """merge states that descend from one state into a single one"""
        if len(states) == 1:
            return states[0]
        n = min(len(s.pc) for s in states)
        i = 0
        while i < n and all(s.pc[i].eq(states[0].pc[i]) for s in states[1:]):
            i += 1
        if i == n:
            # one of them has no further condition: cannot discriminate syntactically
            long = [s for s in states if len(s.pc) > i]
            short = [s for s in states if len(s.pc) == i]
            if len(short) >= 1 and long:
                raise Unsupported('merge without discriminator')
            return states[0]
        c = states[0].pc[i]
        g1 = [s for s in states if s.pc[i].eq(c)]
        g2 = [s for s in states if not s.pc[i].eq(c)]
        nc = T.Z(bnot(c))
        ok = all(s.pc[i].eq(nc) for s in g2)
        a = self.merge(g1)
        b = self.merge(g2)
        disc = c if ok else T.Z(band(*a.pc[i:]))
        return self.merge2(a, b, i, disc)

    def merge2(self, a, b, i, c):
        m = State()
        ra, rb = band(*a.pc[i:]), band(*b.pc[i:])
        m.pc = a.pc[:i]
        j = bor(ra, rb)
        if len(a.pc) > i + 1 or len(b.pc) > i + 1:
            # c -> rest(a) and not c -> rest(b)
            xa = band(*[p for p in a.pc[i:] if not p.eq(T.Z(c))])
            xb = band(*[p for p in b.pc[i:] if not p.eq(T.Z(bnot(c)))])
            m.assume(imp(c, xa))
            m.assume(imp(bnot(c), xb))
        m.loops, m.path = a.loops, a.path
        m.occ = dict(a.occ)
        for k, v in b.occ.items():
            m.occ[k] = max(v, m.occ.get(k, 0))
        # heap
        refmap = {}

        def mref(c, x, y):
            if x.cid in a.heap and y.cid in a.heap or (x.cid in b.heap and y.cid in b.heap):
                return None
            if x.cid in b.heap or y.cid in a.heap:
                return None
            k = (x.cid, y.cid)
            if k in refmap:
                return refmap[k]
            if any(x.cid == k0 or y.cid == k1 for k0, k1 in refmap):
                return None
            ca, cb = a.heap[x.cid], b.heap[y.cid]
            if type(ca) is not type(cb):
                return None
            if isinstance(ca, OVal) and ca.cls is not cb.cls:
                return None
            if isinstance(ca, AVal) and len(ca.shape) != len(cb.shape):
                return None
            self.ncid += 1
            r = refmap[k] = Ref(self.ncid)
            if x.cid in self.frozen or y.cid in self.frozen:
                self.frozen.add(r.cid)
            m.heap[r.cid] = mv(ca, cb)
            return r

        def mv(x, y):
            if x is y:
                return x
            if isinstance(x, Ref) and isinstance(y, Ref) and x.cid != y.cid:
                r = mref(c, x, y)
                if r is not None:
                    return r
                return mk_choice([(c, x), (bnot(c), y)])
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return tuple(mv(p, q) for p, q in zip(x, y))
            if isinstance(x, DVal) and isinstance(y, DVal):
                ks = list(x.d) + [k for k in y.d if k not in x.d]
                return DVal({k: mv(x.d.get(k, UNDEF), y.d.get(k, UNDEF)) for k in ks}, x.note if x.note is y.note else None)
            if isinstance(x, OVal) and isinstance(y, OVal) and x.cls is y.cls:
                ks = list(x.attrs) + [k for k in y.attrs if k not in x.attrs]
                return OVal(x.cls, {k: mv(x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF)) for k in ks})
            if isinstance(x, LVal) and isinstance(y, LVal) and x.items is not None and y.items is not None \
                    and len(x.items) == len(y.items):
                return LVal(None, items=[mv(p, q) for p, q in zip(x.items, y.items)])
            return vite(c, x, y)

        for k in a.heap:
            if k in b.heap:
                m.heap[k] = mv(a.heap[k], b.heap[k])
            else:
                m.heap[k] = a.heap[k]
        for k in b.heap:
            if k not in a.heap:
                m.heap[k] = b.heap[k]
        for f in a.frames:
            if f not in b.frames:
                m.frames[f] = a.frames[f]
                continue
            fa, fb = a.frames[f], b.frames[f]
            fm = {}
            for k in fa:
                if k in fb:
                    fm[k] = mv(fa[k], fb[k]) if fa[k] is not fb[k] and k not in ('$parent', '$mod') else fa[k]
                else:
                    fm[k] = mk_choice([(c, fa[k]), (bnot(c), UNDEF)])
            for k in fb:
                if k not in fa:
                    fm[k] = mk_choice([(bnot(c), fb[k]), (c, UNDEF)])
            m.frames[f] = fm
        for f in b.frames:
            if f not in a.frames:
                m.frames[f] = b.frames[f]
        # events
        p = 0
        while p < min(len(a.events), len(b.events)) and a.events[p] is b.events[p]:
            p += 1
        m.events = a.events[:p]
        for e in a.events[p:]:
            m.events.append(Event(e.kind, e.payload, band(c, e.guard), e.binders))
        for e in b.events[p:]:
            m.events.append(Event(e.kind, e.payload, band(bnot(c), e.guard), e.binders))
        return m

    def join(self, outs):
        """merge the 'next' outcomes of a statement"""
        nx = [o for o in outs if o[0] == 'next']
        rest = [o for o in outs if o[0] != 'next']
        if len(nx) > 1:
            try:
                m = self.merge([o[1] for o in nx])
                nx = [('next', m, None)]
            except Unsupported:
                pass
        return nx + rest

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fid):
        cur = [st]
        outs = []
        for s in stmts:
            res = []
            for c in cur:
                res += self.stmt(s, c, fid)
            res = self.join(res)
            cur = [o[1] for o in res if o[0] == 'next']
            outs += [o for o in res if o[0] != 'next']
            if not cur:
                break
        return [('next', c, None) for c in cur] + outs

    def simple(self, fn, st):
        outs = []
        for k, s, r in self.run_forking(fn, st):
            outs.append(('next', s, None) if k == 'ok' else ('raise', s, r))
        return self.join(outs)

    def branch(self, st, cond, f1, f2):
        d = self.decide(st, cond)
        outs = []
        if d is not False:
            s = st.copy()
            if d is None:
                s.pc.append(T.Z(cond))
            outs += f1(s)
        if d is not True:
            s = st.copy()
            if d is None:
                s.pc.append(T.Z(bnot(cond)))
            outs += f2(s)
        return outs

    def stmt(self, s, st, fid):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (k, s.lineno))
        return m(s, st, fid)

    def s_Pass(self, s, st, fid):
        return [('next', st, None)]

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        return self.simple(lambda x: self.eval(s.value, x, fid), st)

    def s_Assign(self, s, st, fid):
        def f(x):
            v = self.eval(s.value, x, fid)
            for t in s.targets:
                self.store(t, v, x, fid)
        return self.simple(f, st)

    def s_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [('next', st, None)]
        return self.simple(lambda x: self.store(s.target, self.eval(s.value, x, fid), x, fid), st)

    def s_AugAssign(self, s, st, fid):
        return self.simple(lambda x: self.augassign(s, x, fid), st)

    def s_Import(self, s, st, fid):
        st = st.copy()
        for a in s.names:
            st.frames[fid][a.asname or a.name.split('.')[0]] = self._import(a.name if a.asname else a.name.split('.')[0])
        return [('next', st, None)]

    def s_ImportFrom(self, s, st, fid):
        st = st.copy()
        for a in s.names:
            st.frames[fid][a.asname or a.name] = self.from_import(s.module, s.level, a.name)
        return [('next', st, None)]

    def s_FunctionDef(self, s, st, fid):
        def f(x):
            df = [self.eval(d, x, fid) for d in s.args.defaults]
            q = x.frames[fid].get('$qual', '')
            x.frames[fid][s.name] = Closure(s, fid, x.frames[fid]['$mod'], s.name, df, qual='%s.%s' % (q, s.name))
        return self.simple(f, st)

    def s_Return(self, s, st, fid):
        outs = []
        for k, x, r in self.run_forking(lambda x: self.eval(s.value, x, fid) if s.value else None, st):
            outs.append(('return', x, r) if k == 'ok' else ('raise', x, r))
        return outs

    def s_Raise(self, s, st, fid):
        def f(x):
            if s.exc is None:
                raise PyRaise('RuntimeError')
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, x, fid)
                e = e.func
            if isinstance(e, ast.Name) and e.id in EXC_NAMES:
                raise PyRaise(e.id)
            raise Unsupported('raise')
        return self.simple(f, st)

    def s_Assert(self, s, st, fid):
        return self.simple(lambda x: self.require(x, self.truth(self.eval(s.test, x, fid), x), 'AssertionError'), st)

    def s_Break(self, s, st, fid):
        return [('break', st, None)]

    def s_Continue(self, s, st, fid):
        return [('continue', st, None)]

    def s_If(self, s, st, fid):
        outs = []
        for k, x, r in self.run_forking(lambda x: self.truth(self.eval(s.test, x, fid), x), st):
            if k == 'raise':
                outs.append(('raise', x, r))
                continue
            outs += self.branch(x, r, lambda y: self.block(s.body, y, fid), lambda y: self.block(s.orelse, y, fid))
        return outs

    def s_With(self, s, st, fid):
        outs = []

        def f(x):
            for it in s.items:
                v = self.eval(it.context_expr, x, fid)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, v, x, fid)
        for o in self.simple(f, st):
            if o[0] == 'next':
                outs += self.block(s.body, o[1], fid)
            else:
                outs.append(o)
        return outs

    def exc_matches(self, e, h):
        if h is None:
            return True
        names = [x.id for x in h.elts] if isinstance(h, ast.Tuple) else [h.id if isinstance(h, ast.Name) else h.attr]
        par = [e.exc] + EXC_PARENTS.get(e.exc, ['Exception']) + ['BaseException']
        return any(n in par for n in names)

    def s_Try(self, s, st, fid):
        outs = []
        body = self.block(s.body, st.copy(), fid)
        nx = []
        for o in body:
            if o[0] == 'next':
                nx += self.block(s.orelse, o[1], fid) if s.orelse else [o]
            elif o[0] == 'raise':
                for h in s.handlers:
                    if self.exc_matches(o[2], h.type):
                        y = o[1].copy()
                        if h.name:
                            y.frames[fid][h.name] = Opaque('exc')
                        nx += self.block(h.body, y, fid)
                        break
                else:
                    nx.append(o)
            else:
                nx.append(o)
        if s.finalbody:
            res = []
            for o in nx:
                for f in self.block(s.finalbody, o[1], fid):
                    if f[0] == 'next':
                        res.append((o[0], f[1], o[2]))
                    else:
                        res.append(f)
            nx = res
        return self.join(nx)

    def s_For(self, s, st, fid):
        outs = []
        site = self.site(s, st, fid)

        def f(x):
            it = self.to_iter(self.eval(s.iter, x, fid), x)
            return it
        for k, x, it in self.run_forking(f, st):
            if k == 'raise':
                outs.append(('raise', x, it))
                continue

            def step(y, kk):
                res = []
                for k2, y2, r in self.run_forking(lambda z: self.store(s.target, it.fn(kk, z), z, fid), y):
                    if k2 == 'raise':
                        res.append(('raise', y2, r))
                    else:
                        res += self.block(s.body, y2, fid)
                return res
            for o in self.loopsum.for_loop(self, x, it.len, step, site, self.temps(s, x, fid)):
                if o[0] == 'next' and s.orelse:
                    outs += self.block(s.orelse, o[1], fid)
                elif o[0] == 'broke':
                    outs.append(('next', o[1], None))
                else:
                    outs.append(o)
        return outs

    def temps(self, loop, st, fid):
        from . import live
        fn = st.frames[fid].get('$fn')
        if fn is None:
            return ()
        return frozenset(('env', fid, x) for x in live.temporaries(fn, loop))

    def s_While(self, s, st, fid):
        if s.orelse:
            raise Unsupported('while-else')
        site = self.site(s, st, fid)

        def test(y):
            return self.run_forking(lambda z: self.truth(self.eval(s.test, z, fid), z), y)

        def body(y):
            return self.block(s.body, y, fid)
        outs = []
        for o in self.loopsum.while_loop(self, st, test, body, site, self.temps(s, st, fid)):
            outs.append(('next', o[1], None) if o[0] == 'broke' else o)
        return outs

    def s_Delete(self, s, st, fid):
        st = st.copy()
        for t in s.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            st.frames[fid].pop(t.id, None)
        return [('next', st, None)]

    def site(self, node, st, fid):
        return '%s:%s' % (st.frames[fid].get('$qual', st.frames[fid].get('$mod')), type(node).__name__)

    # ------------------------------------------------------------ names
    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                if isinstance(v, Choice):
                    v = self.force(v, st)
                    fr[name] = v
                if v is UNDEF:
                    raise PyRaise('UnboundLocalError', name)
                if v is POISON:
                    raise NoStructure('loop-carried value of %s has no common structure' % name)
                return v
            mod = fr['$mod']
            f = fr['$parent']
        try:
            return self.mod_global(mod, name, st)
        except KeyError:
            pass
        if name in self.lib.builtins or name in EXC_NAMES:
            return Builtin(name)
        raise PyRaise('NameError', name)

    def force(self, v, st):
        """resolve a Choice by case split"""
        while isinstance(v, Choice):
            alts = v.alts
            for g, x in alts[:-1]:
                if self.choose(st, g):
                    v = x
                    break
            else:
                v = alts[-1][1]
        return v

    def content(self, st, v):
        """immutable content of a heap value"""
        v = self.force(v, st)
        if isinstance(v, Ref):
            return st.heap[v.cid]
        if isinstance(v, AView):
            b = st.heap[v.cid]
            inv = None
            if b.inv is not None and len(v.spec) == 1 and v.spec[0][0] == 's' and v.spec[0][2] == 1:
                a0, n0 = v.spec[0][1], v.spec[0][3]

                def inv(x):
                    c, j = b.inv(x)
                    d = isub(j, a0)
                    return band(c, ile(0, d), ilt(d, n0)), d
            return AVal(v.shape, b.kind, lambda idx: b.get(v.base_idx(idx)), inv)
        if isinstance(v, Path):
            c = st.heap[v.cid]
            for i in v.idxs:
                c = c.at(i)
                if isinstance(c, Ref):
                    c = st.heap[c.cid]
            return c
        return v

    # ------------------------------------------------------------ stores
    def store(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, vals):
                self.store(x, y, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, st, fid), st)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, st, fid), st)
            k = self.eval_index(t.slice, st, fid)
            self.lib.setitem(st, o, k, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n, st):
        v = self.force(v, st)
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError', 'unpack')
            return list(v)
        it = self.to_iter(v, st)
        self.require(st, ieq(it.len, n), 'ValueError', 'unpack')
        return [it.fn(i, st) for i in range(n)]

    def set_attr(self, o, name, v, st):
        c = self.content(st, o)
        if isinstance(o, ClassV):
            ov = self.force(st.heap.get(('cls', o.mod, o.name), UNDEF), st)
            if ov is UNDEF:
                ov = OVal(o.name, {})
            st.heap[('cls', o.mod, o.name)] = OVal(o.name, {**ov.attrs, name: v})
        elif isinstance(c, OVal):
            self.writable(o.cid)
            st.heap[o.cid] = OVal(c.cls, {**c.attrs, name: v})
        elif isinstance(c, AVal) and name == 'shape':
            st.heap[o.cid] = self.lib.reshape(st, c, v)
        elif isinstance(c, Opaque):
            g = self.ghosts.get(c.tag)
            if g is not None:
                self.set_attr(g, name, v, st)
        else:
            raise Unsupported('attribute assignment on %r' % (c,))

    def augassign(self, s, st, fid):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid)
            rhs = self.eval(s.value, st, fid)
            c = self.content(st, cur)
            if isinstance(c, AVal) and isinstance(cur, (Ref, AView)):
                self.lib.aug_array(st, cur, s.op, rhs)
            elif isinstance(c, LVal) and isinstance(cur, (Ref, Path)) and isinstance(s.op, ast.Add):
                self.lib.call_method(st, cur, 'extend', [rhs], {})
            else:
                st.frames[fid][t.id] = self.lib.binop(st, s.op, cur, rhs)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, st, fid), st)
            cur = self.get_attr(o, t.attr, st)
            rhs = self.eval(s.value, st, fid)
            c = self.content(st, cur)
            if isinstance(c, AVal) and isinstance(cur, (Ref, AView)):
                self.lib.aug_array(st, cur, s.op, rhs)
            else:
                self.set_attr(o, t.attr, self.lib.binop(st, s.op, cur, rhs), st)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, st, fid), st)
            k = self.eval_index(t.slice, st, fid)
            cur = self.lib.getitem(st, o, k)
            rhs = self.eval(s.value, st, fid)
            c = self.content(st, cur)
            if isinstance(c, AVal) and isinstance(cur, (Ref, AView)):
                if isinstance(cur, AView):
                    self.lib.aug_array(st, cur, s.op, rhs)
                    return
            self.lib.setitem(st, o, k, self.lib.binop(st, s.op, cur, rhs), aug=True)
        else:
            raise Unsupported('augmented target')

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fid):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return toF(v)
            return F(Fraction(repr(v)))
        return v

    def e_Name(self, e, st, fid):
        return self.lookup(e.id, st, fid)

    def e_Tuple(self, e, st, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.to_iter(self.eval(x.value, st, fid), st)
                if isz(it.len):
                    raise Unsupported('starred of symbolic length')
                out += [it.fn(i, st) for i in range(it.len)]
            else:
                out.append(self.eval(x, st, fid))
        return tuple(out)

    def e_List(self, e, st, fid):
        return self.alloc(st, LVal(None, items=[self.boxv(st, x) for x in self.e_Tuple(e, st, fid)]))

    def boxv(self, st, v):
        return v

    def e_Dict(self, e, st, fid):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.content(st, self.eval(v, st, fid))
                if not isinstance(src, DVal):
                    raise Unsupported('dict unpack')
                d.update(src.d)
                continue
            kk = self.eval(k, st, fid)
            if not isinstance(kk, str):
                raise Unsupported('non-string dict key')
            d[kk] = self.eval(v, st, fid)
        return self.alloc(st, DVal(d))

    def e_Attribute(self, e, st, fid):
        o = self.force(self.eval(e.value, st, fid), st)
        return self.get_attr(o, e.attr, st)

    def class_attr(self, cv, name, st):
        cell = self.force(st.heap.get(('cls', cv.mod, cv.name), UNDEF), st)
        if cell is not UNDEF and name in cell.attrs:
            return cell.attrs[name]
        for x in cv.node.body:
            if isinstance(x, ast.FunctionDef) and x.name == name:
                return Closure(x, None, cv.mod, name, qual='%s.%s.%s' % (cv.mod, cv.name, name))
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                fid = self.new_frame(st, None, cv.mod)
                return self.eval(x.value, st, fid)
        return UNDEF

    def get_attr(self, o, name, st, default=None, has_default=False):
        c = self.content(st, o)
        if isinstance(c, OVal):
            v = c.attrs.get(name, UNDEF)
            if v is UNDEF:
                if isinstance(c.cls, ClassV):
                    v = self.class_attr(c.cls, name, st)
                    if isinstance(v, Closure):
                        decs = [d.id for d in v.node.decorator_list if isinstance(d, ast.Name)]
                        if 'staticmethod' in decs:
                            return v
                        return Bound(v, o)
                if v is UNDEF:
                    if has_default:
                        return default
                    raise PyRaise('AttributeError', name)
            if isinstance(v, Choice):
                v = self.force(v, st)
                if v is UNDEF:
                    if has_default:
                        return default
                    raise PyRaise('AttributeError', name)
            return v
        if isinstance(c, ModuleV):
            if c.user:
                try:
                    return self.mod_global(c.user, name, st)
                except KeyError:
                    if has_default:
                        return default
                    raise PyRaise('AttributeError', name)
            return self.lib.module_attr(c.name, name, default, has_default)
        if isinstance(c, ClassV):
            v = self.class_attr(c, name, st)
            if v is UNDEF:
                raise PyRaise('AttributeError', name)
            return v
        return self.lib.value_attr(st, o, c, name, default, has_default)

    def eval_index(self, e, st, fid):
        if isinstance(e, ast.Slice):
            return self.e_Slice(e, st, fid)
        if isinstance(e, ast.Tuple):
            return tuple(self.eval_index(x, st, fid) for x in e.elts)
        return self.eval(e, st, fid)

    def e_Slice(self, e, st, fid):
        f = lambda x: None if x is None else self.force(self.eval(x, st, fid), st)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, st, fid):
        o = self.force(self.eval(e.value, st, fid), st)
        k = self.eval_index(e.slice, st, fid)
        return self.lib.getitem(st, o, k)

    def e_BinOp(self, e, st, fid):
        a = self.force(self.eval(e.left, st, fid), st)
        b = self.force(self.eval(e.right, st, fid), st)
        return self.lib.binop(st, e.op, a, b)

    def e_UnaryOp(self, e, st, fid):
        v = self.force(self.eval(e.operand, st, fid), st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v, st))
        return self.lib.unop(st, e.op, v)

    def pure(self, st, fn, assume):
        """evaluate fn on a copy without forks, raises or effects; None if that is not possible"""
        s2 = st.copy()
        s2.assume(assume)
        self.nofork += 1
        try:
            n0 = self.ncid
            v = fn(s2)
        except (NoFork, PyRaise, ForkEx):
            return None
        finally:
            self.nofork -= 1
        for k in st.heap:
            if s2.heap.get(k) is not st.heap[k]:
                return None
        if len(s2.events) != len(st.events) or s2.occ != st.occ:
            return None
        if isinstance(v, (Ref, AView, Path, Choice, LVal, DVal, OVal)) and not (isinstance(v, Ref) and v.cid in st.heap):
            return None
        return (v,)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st, fid)
        for x in e.values[1:]:
            v = self.force(v, st)
            t = self.truth(v, st)
            d = self.decide(st, t)
            if d is not None:
                if d is not isand:
                    return v
                v = self.eval(x, st, fid)
                continue
            r = self.pure(st, lambda s: self.eval(x, s, fid), t if isand else bnot(t))
            if r is not None and is_boolv(v) and is_boolv(r[0]):
                v = band(v, r[0]) if isand else bor(v, r[0])
                continue
            if self.choose(st, t) is not isand:
                return v
            v = self.eval(x, st, fid)
        return v

    def e_IfExp(self, e, st, fid):
        t = self.truth(self.eval(e.test, st, fid), st)
        d = self.decide(st, t)
        if d is None:
            a = self.pure(st, lambda s: self.eval(e.body, s, fid), t)
            b = self.pure(st, lambda s: self.eval(e.orelse, s, fid), bnot(t)) if a is not None else None
            if a is not None and b is not None:
                r = vite(t, a[0], b[0])
                if not isinstance(r, Choice):
                    return r
            d = self.choose(st, t)
        return self.eval(e.body if d else e.orelse, st, fid)

    def e_Compare(self, e, st, fid):
        l = self.force(self.eval(e.left, st, fid), st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.force(self.eval(r, st, fid), st)
            c = self.lib.compare(st, op, l, rv)
            out = c if out is None else self.lib.logical(st, out, c)
            l = rv
        return out

    def e_Lambda(self, e, st, fid):
        df = [self.eval(d, st, fid) for d in e.args.defaults]
        return Closure(e, fid, st.frames[fid]['$mod'], '<lambda>', df, qual='lambda')

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.eval(v.value, st, fid), st)
                parts.append(self.lib.snap(st, x))
        return self.lib.mkstr(parts)

    def e_Starred(self, e, st, fid):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, st, fid):
        v = self.eval(e.value, st, fid)
        self.store(e.target, v, st, fid)
        return v

    # comprehensions
    def e_ListComp(self, e, st, fid):
        return self.comp(e.generators, st, fid, lambda s, f: self.eval(e.elt, s, f), e)

    def e_GeneratorExp(self, e, st, fid):
        return self.e_ListComp(e, st, fid)

    def e_SetComp(self, e, st, fid):
        return self.lib.call_builtin(st, 'set', [self.e_ListComp(e, st, fid)], {})

    def e_DictComp(self, e, st, fid):
        if len(e.generators) != 1 or e.generators[0].ifs and False:
            raise Unsupported('dict comprehension')
        g = e.generators[0]
        it = self.to_iter(self.eval(g.iter, st, fid), st)
        if isz(it.len):
            raise Unsupported('dict comprehension of symbolic length')
        d = {}
        f2 = self.new_frame(st, fid, st.frames[fid]['$mod'])
        st.frames[f2]['$qual'] = st.frames[fid].get('$qual')
        for i in range(it.len):
            self.store(g.target, it.fn(i, st), st, f2)
            if all(self.choose(st, self.truth(self.eval(c, st, f2), st)) for c in g.ifs):
                k = self.eval(e.key, st, f2)
                if not isinstance(k, str):
                    raise Unsupported('dict key')
                d[k] = self.eval(e.value, st, f2)
        st.frames.pop(f2, None)
        return self.alloc(st, DVal(d))

    def comp(self, gens, st, fid, elt, node):
        f2 = self.new_frame(st, fid, st.frames[fid]['$mod'])
        st.frames[f2]['$qual'] = st.frames[fid].get('$qual')
        res = self.alloc(st, LVal(None, items=[]))
        site = self.site(node, st, fid)
        self.comp_gen(gens, 0, st, f2, elt, res, site)
        st.frames.pop(f2, None)
        return res

    def comp_gen(self, gens, gi, st, f2, elt, res, site):
        if gi == len(gens):
            v = elt(st, f2)
            self.lib.append(st, res, v)
            return
        g = gens[gi]
        it = self.to_iter(self.eval(g.iter, st, f2), st)
        if not isz(it.len) and it.len <= self.UNROLL:
            for i in range(it.len):
                self.store(g.target, it.fn(i, st), st, f2)
                if all(self.choose(st, self.truth(self.eval(c, st, f2), st)) for c in g.ifs):
                    self.comp_gen(gens, gi + 1, st, f2, elt, res, site)
            return

        def step(y, kk):
            def one(z):
                self.store(g.target, it.fn(kk, z), z, f2)
                for c in g.ifs:
                    if not self.choose(z, self.truth(self.eval(c, z, f2), z)):
                        return
                self.comp_gen(gens, gi + 1, z, f2, elt, res, site)
            return self.simple(one, y)
        self.effect_loop(st, it.len, step, site)

    def effect_loop(self, st, n, step, site):
        """run a loop inside an expression: continue in the (single) normal outcome"""
        outs = self.loopsum.for_loop(self, st.copy(), n, step, site)
        self.continue_with(st, outs)

    def continue_with(self, st, outs):
        """inside an expression, go on with one of several outcomes of a sub-computation"""
        base = len(st.pc)
        nx = [o for o in outs if o[0] in ('next', 'broke', 'return')]
        rs = [o for o in outs if o[0] == 'raise']
        todo = rs + nx
        for i, o in enumerate(todo):
            last = i == len(todo) - 1
            cond = band(*o[1].pc[base:])
            if last or self.choose(st, cond):
                extra = st.pc[base:]
                have = {p.get_id() for p in o[1].pc}
                s = o[1].copy()
                s.pc += [p for p in extra if p.get_id() not in have]
                st.assign(s)
                if o[0] == 'raise':
                    raise o[2]
                return o[2]
        raise PyRaise('Unreachable')

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fid):
        fn = self.force(self.eval(e.func, st, fid), st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.to_iter(self.eval(a.value, st, fid), st)
                if isz(it.len):
                    raise Unsupported('star args')
                args += [it.fn(i, st) for i in range(it.len)]
            else:
                args.append(self.eval(a, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, fid)
            if k.arg is None:
                d = self.content(st, v)
                if not isinstance(d, DVal):
                    raise Unsupported('** of a non-dict')
                kw.update(d.d)
            else:
                kw[k.arg] = v
        save = st.path
        st.path = save + ('%s.%d.%d' % (st.frames[fid].get('$qual', ''), e.lineno, e.col_offset),)
        try:
            r = self.call(fn, args, kw, st)
        finally:
            st.path = save
        return r

    def call(self, fn, args, kw, st):
        fn = self.force(fn, st)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kw, st)
        if isinstance(fn, Closure):
            return self.call_user(fn, args, kw, st)
        if isinstance(fn, ClassV):
            o = self.alloc(st, OVal(fn, {}))
            init = self.class_attr(fn, '__init__', st)
            if isinstance(init, Closure):
                self.call_user(init, [o] + list(args), kw, st)
            return o
        if isinstance(fn, Builtin):
            return self.lib.call_builtin(st, fn.name, list(args), kw)
        if isinstance(fn, Method):
            return self.lib.call_method(st, fn.obj, fn.name, list(args), kw)
        if isinstance(fn, Opaque):
            return self.lib.call_opaque(st, fn, list(args), kw)
        raise Unsupported('call of %r' % (fn,))

    def bind(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', 'too many arguments')
            fr[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        for n, v in zip(names, args):
            fr[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in fr:
                    raise PyRaise('TypeError', 'duplicate argument')
                fr[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword ' + k)
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc(st, DVal(extra))
        defs = a.defaults
        for n, d, i in zip(names[len(names) - len(defs):], defs, range(len(defs))):
            if n not in fr:
                if fn.defaults:
                    fr[n] = fn.defaults[i]
                else:
                    f0 = self.new_frame(st, None, fn.mod)
                    fr[n] = self.eval(d, st, f0)
                    st.frames.pop(f0)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fr and d is not None:
                f0 = self.new_frame(st, None, fn.mod)
                fr[x.arg] = self.eval(d, st, f0)
                st.frames.pop(f0)
        for n in names + kwn:
            if n not in fr:
                raise PyRaise('TypeError', 'missing argument ' + n)
        return fr

    def call_user(self, fn, args, kw, st, inline=False):
        fr = self.bind(fn, args, kw, st)
        if not inline and fn.qual in self.contracts:
            return self.contracts[fn.qual](self, st, fr)
        self.called.add(fn.qual)
        if self.depth > 40:
            raise Unsupported('recursion')
        outs = self.run_body(fn, fr, st.copy())
        return self.continue_with(st, self.merge_returns(outs))

    def run_body(self, fn, fr, st):
        fid = self.new_frame(st, fn.fid, fn.mod)
        st.frames[fid].update(fr)
        st.frames[fid]['$qual'] = fn.qual
        st.frames[fid]['$fn'] = fn.node
        self.depth += 1
        save = st.path
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [('return' if k == 'ok' else 'raise', s, r)
                        for k, s, r in self.run_forking(lambda x: self.eval(fn.node.body, x, fid), st)]
            else:
                outs = self.block(fn.node.body, st, fid)
        finally:
            self.depth -= 1
        res = []
        for k, s, r in outs:
            if k == 'next':
                k, r = 'return', None
            s.path = save
            if not self._captures(r, fid, s):
                s.frames.pop(fid, None)
            res.append((k, s, r))
        return res

    def _captures(self, v, fid, st):
        if isinstance(v, Closure):
            return v.fid is not None
        if isinstance(v, tuple):
            return any(self._captures(x, fid, st) for x in v)
        return False

    def merge_returns(self, outs):
        rets = [o for o in outs if o[0] == 'return']
        rest = [o for o in outs if o[0] != 'return']
        if len(rets) > 1:
            for o in rets:
                o[1].frames['$ret'] = {'$parent': None, '$mod': None, 'r': o[2]}
            try:
                m = self.merge([o[1] for o in rets])
                r = m.frames.pop('$ret')['r']
                rets = [('return', m, r)]
            except Unsupported:
                for o in rets:
                    o[1].frames.pop('$ret', None)
        return rets + rest

    # ------------------------------------------------------------ truth, iteration
    def truth(self, v, st):
        v = self.force(v, st)
        c = self.content(st, v)
        if c is None:
            return False
        if isinstance(c, bool) or is_boolv(c):
            return c
        if isinstance(c, str):
            return bool(c)
        if isinstance(c, SStr):
            return True
        if is_intv(c):
            return bnot(ieq(c, 0))
        if isinstance(c, F):
            return bnot(T.feq(c, toF(0)))
        if isinstance(c, LVal):
            return ilt(0, c.len)
        if isinstance(c, tuple):
            return len(c) > 0
        if isinstance(c, DVal):
            if any(isinstance(x, Choice) for x in c.d.values()):
                raise Unsupported('truth of partial dict')
            return len(c.d) > 0
        if isinstance(c, (OVal, Opaque, Closure, Bound, Builtin, Method)):
            return True
        if isinstance(c, AVal):
            if all(not isz(x) for x in c.shape):
                n = 1
                for x in c.shape:
                    n *= x
                if n == 1:
                    return self.truth(c.get((0,) * len(c.shape)), st)
            raise PyRaise('ValueError', 'truth of array')
        raise Unsupported('truth of %r' % (c,))

    def to_iter(self, v, st):
        """IterV with fn(i, st)"""
        v = self.force(v, st)
        if isinstance(v, IterV):
            if v.eff is not None:
                lst = self.lib.call_builtin(st, 'list', [v], {})
                return self.to_iter(lst, st)
            return v
        if isinstance(v, tuple):
            return IterV(len(v), lambda i, s: LVal(None, items=v).at(i))
        if isinstance(v, str):
            return IterV(len(v), lambda i, s: v[i])
        c = self.content(st, v)
        if isinstance(c, LVal):
            if isinstance(v, (Ref, Path)):
                return IterV(c.len, lambda i, s: self.lib.list_elem(s, v, c, i))
            return IterV(c.len, lambda i, s: c.at(i))
        if isinstance(c, DVal):
            ks = list(self.lib.dict_keys(st, v))
            return IterV(len(ks), lambda i, s: ks[i])
        if isinstance(c, AVal):
            if len(c.shape) == 1:
                return IterV(c.shape[0], lambda i, s: c.get((i,)))
            if not c.shape:
                raise PyRaise('TypeError', 'iteration over 0-d')
            return IterV(c.shape[0], lambda i, s: self.lib.getitem(s, v, i))
        if isinstance(c, Opaque):
            raise Unsupported('iteration over opaque')
        raise PyRaise('TypeError', 'not iterable')
