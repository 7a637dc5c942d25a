"""Verification-condition driver: symbolic inputs, running a function of /repo under contract, proving named obligations."""
import os
import time
import z3
from . import terms as T
from . import values as V
from .terms import F, Unsupported, isz, band, bor, bnot, imp, ite, Z, rlt, rle, req, ieq, ilt, ile
from .values import *
from .interp import Interp, State, PyRaise, Event


class Ob:
    __slots__ = ('name', 'status', 'backend', 'time', 'note', 'hyps', 'goal', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.status, self.backend, self.time, self.note = 'unknown', '', 0.0, ''
        self.hyps = self.goal = None


def int_terms_only(t, memo):
    st = [t]
    while st:
        x = st.pop()
        if not z3.is_app(x) or x.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) or (x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return False
        st.extend(x.children())
    return True


def leaves(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort().kind() == z3.Z3_REAL_SORT:
            out.add(x.sexpr())
        else:
            st.extend(x.children())
    return frozenset(out)


def is_int_atom(t):
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) \
        and t.arg(0).sort().kind() == z3.Z3_INT_SORT and int_terms_only(t, None)


def int_atoms_only(h):
    return int_terms_only(h, None)


class VC:
    TIMEOUT = 15000

    def __init__(self, root='/repo/dorado'):
        T.reset_registry()
        V.init_box()
        self.I = Interp(root)
        self.st = State()
        self.obs = []
        self.fname = '?'
        self.assumptions = set()

    # ------------------------------------------------------------ symbolic inputs
    def int(self, name, lo=None, hi=None):
        c = z3.Int(name)
        if lo is not None:
            self.st.assume(lo <= c)
        if hi is not None:
            self.st.assume(c <= hi)
        return c

    def real(self, name, *conds):
        c = z3.Real(name)
        for f in conds:
            self.st.assume(f(c))
        return c

    def flt(self, name, *conds):
        return F(self.real(name, *conds))

    def decl(self, name, n, sort=None):
        return z3.Function(name, *([z3.IntSort()] * n + [sort if sort is not None else z3.RealSort()]))

    def arrv(self, name, shape, kind='f', nan=False):
        n = len(shape)
        so = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
        d = self.decl(name, n, so)
        dn = self.decl(name + '_nan', n, z3.BoolSort()) if nan else None

        def get(idx):
            ix = [Z(i) for i in idx]
            if kind == 'f':
                return F(d(*ix), dn(*ix) if nan else False)
            return d(*ix)
        a = AVal(tuple(shape), kind, get)
        a.note = None
        return a, d, dn

    def arr(self, name, shape, kind='f', nan=False):
        a, d, dn = self.arrv(name, shape, kind, nan)
        return self.I.alloc(self.st, a), d, dn

    def carr(self, rows, kind='f'):
        """concrete 2-D array; entries python numbers or z3 terms or F"""
        R, C = len(rows), len(rows[0])

        def el(v):
            if kind == 'f':
                return v if isinstance(v, F) else T.toF(v)
            return v

        def get(idx):
            i, j = idx
            if not isz(i) and not isz(j):
                return el(rows[i][j])
            r = None
            for a in range(R):
                for b in range(C):
                    x = el(rows[a][b])
                    r = x if r is None else V.scal_ite(band(ieq(i, a), ieq(j, b)), x, r)
            return r
        return self.I.alloc(self.st, AVal((R, C), kind, get))

    def obj(self, cls, attrs, mod='particle_track'):
        cv = self.I.mod_global(mod, cls) if isinstance(cls, str) else cls
        return self.I.alloc(self.st, OVal(cv, dict(attrs)))

    def has(self, mod, name):
        try:
            self.fn(mod, name)
            return True
        except Exception:
            return False

    def fn(self, mod, name):
        if '.' in name:
            c, m = name.split('.')
            return self.I.class_attr(self.I.mod_global(mod, c), m, self.st)
        return self.I.mod_global(mod, name)

    def run(self, mod, name, args, kw=None, st=None):
        """outcomes of the real function: list of (kind, state, value)"""
        f = self.fn(mod, name)
        self.fname = mod + '.' + name
        self.I.called.add(self.fname)
        st = st if st is not None else self.st
        fr = self.I.bind(f, list(args), dict(kw or {}), st)
        return self.I.merge_returns(self.I.run_body(f, fr, st.copy()))

    def call(self, f, args, kw=None, st=None):
        """outcomes of a function value (a closure the code returned)"""
        if not isinstance(f, Closure):
            raise Unsupported('call of something that is not a function of the repository')
        st = st if st is not None else self.st
        st = st.copy()
        fr = self.I.bind(f, list(args), dict(kw or {}), st)
        return self.I.merge_returns(self.I.run_body(f, fr, st))

    # ------------------------------------------------------------ outcomes
    def returns(self, outs):
        return [o for o in outs if o[0] == 'return']

    def no_raise(self, outs, allowed=(), extra=()):
        """every raising path is unreachable"""
        for kind, s, v in outs:
            if kind == 'raise' and v.exc not in allowed:
                self.prove('no %s' % v.exc, s, False, extra)
        self.flag('some outcome', bool(outs))

    def val(self, st, v):
        return self.I.content(st, v)

    def alts(self, st, v):
        """(state, content) for each alternative of a guarded union, the state assuming its guard"""
        if not isinstance(v, Choice):
            return [(st, self.I.content(st, v))]
        out, no = [], []
        for n, (g, x) in enumerate(v.alts):
            s2 = st.copy()
            for h in no:
                s2.assume(bnot(h))
            if n < len(v.alts) - 1:
                s2.assume(g)
            no.append(g)
            if T.check(list(s2.pc), 2000, rounds=2) != 'unsat':
                out += self.alts(s2, x)
        return out

    def ints(self, names):
        return [z3.Int(x) for x in names.split()]

    # ------------------------------------------------------------ obligations
    def prove(self, name, st, goal, extra=(), timeout=None, rounds=4, split=()):
        """obligation: path condition of st and extra entail goal; split: conditions to case-split on"""
        if split:
            a = self.prove(name + ' [case]', st, goal, list(extra) + [split[0]], timeout, rounds, split[1:])
            return self.prove(name + ' [case not]', st, goal, list(extra) + [z3.Not(split[0])], timeout, rounds, split[1:])
        o = Ob(name, self.fname)
        self.obs.append(o)
        t0 = time.time()
        hyps = list(st.pc if isinstance(st, State) else st) + [Z(e) for e in extra if e is not True]
        if goal is True:
            o.status, o.backend = 'ok', 'simplifier'
            return o
        g = Z(goal)
        o.hyps, o.goal = hyps, g
        if z3.is_and(g):
            parts = g.children()
        else:
            parts = [g]
        o.status, o.backend = 'ok', 'z3'
        to = timeout or self.TIMEOUT
        for p in parts:
            r = None
            for rd in (((0,) if name.startswith('loop-step') else ()) + ((2, rounds) if rounds > 2 else (rounds,))):
                r = T.check(hyps + [z3.Not(p)], to if rd == rounds else min(to, 4000) if rd else 2000, rounds=rd)
                if r == 'unsat':
                    break
            if r != 'unsat':
                r2 = T.cvc5_check(hyps + [z3.Not(p)], to, rounds=rounds) if r == 'unknown' else r
                if r2 == 'unsat':
                    o.backend = 'z3+cvc5'
                    continue
                o.status = 'failed' if 'sat' in (r, r2) else 'unknown'
                o.note = 'solver: %s on %s' % (r2, str(p)[:300])
                break
        o.time = time.time() - t0
        if os.environ.get('PYVC_LIVE'):
            print('   . %-8s %6.2fs %-10s %s %s' % (o.status, o.time, o.backend, o.name, o.note[:200] if o.status != 'ok' else ''), flush=True)
        return o

    def hints(self, x, cands=(), stats=()):
        """trivially true facts that name, for every count in x, its prefix at the candidate indices and at the witnesses of the statistics in x"""
        x = [Z(y) for y in (x if isinstance(x, (list, tuple)) else [x]) if isz(y)]
        apps = T._apps(x, {})
        idx = list(cands)
        for a in apps + T._apps([Z(y) for y in stats if isz(y)], {}):
            idx += [d(*a.children()) for d in T.REG.witness.get(a.decl().name(), ())]
        out = []
        for a in apps:
            if a.decl().name() in T.REG.sums and a.decl().range() == z3.IntSort():
                out += [a.decl()(q, *a.children()[1:]) >= 0 for q in idx]
        return out

    def inner_apps(self, x, names):
        """applications of the named functions in x and in the summands of its sums and counts"""
        out, seen, todo = {}, {}, [Z(y) for y in (x if isinstance(x, (list, tuple)) else [x]) if isz(y)]
        q = T.bound_int('q')
        while todo:
            apps = T._apps(todo, seen)
            todo = []
            for a in apps:
                nm = a.decl().name()
                if nm in names:
                    out[a.get_id()] = a
                if nm in T.REG.sums:
                    todo.append(Z(T.REG.sums[nm].at(a.children()[1:], q)))
        return list(out.values())

    def cases(self, st, x, goals, hyps, cands=(), lits=()):
        """goals [(name, goal of x, further hypotheses)] by cases on the conditions of x, outermost first; each case is its own
        obligation, refuted cases are closed at once"""
        c = first_cond([x.v, x.nan, x.inf])
        lits = list(lits)
        if c is None:
            for name, goal, more in goals:
                self.prove('%s [%s]' % (name, ', '.join(str(z3.simplify(l))[:40].replace('\n', ' ') for l in lits[-2:])), st, goal(x), list(hyps) + lits + list(more))
            return
        closed = False
        for val in (True, False):
            l = c if val else z3.Not(c)
            h = self.hints([l], cands, lits) if not closed else []
            t0 = time.time()
            if not closed and any(T.check(list(st.pc) + list(hyps) + lits + h + [l], to, rounds=rd) == 'unsat' for to, rd in ((4000, 2), (20000, 3))):
                if os.environ.get('PYVC_LIVE'):
                    print('   . closed   %6.2fs %s' % (time.time() - t0, str(z3.simplify(l))[:80].replace('\n', ' ')), flush=True)
                closed = True
                continue
            if os.environ.get('PYVC_LIVE'):
                print('   . open     %6.2fs %s' % (time.time() - t0, str(z3.simplify(l))[:80].replace('\n', ' ')), flush=True)
            pr = [(c, z3.BoolVal(val))]
            y = F(*[T.fold(z3.simplify(z3.substitute(t, *pr))) if isz(t) else t for t in (x.v, x.nan, x.inf)])
            self.cases(st, y, goals, hyps, cands, lits + [l])

    def under(self, st, hyps, x):
        """x with its integer comparisons decided by the path condition and hyps replaced by their truth value (equal to x under them)"""
        if isinstance(x, F):
            return F(self.under(st, hyps, x.v), self.under(st, hyps, x.nan), self.under(st, hyps, x.inf))
        if not isz(x):
            return x
        so = z3.Solver()
        so.set('timeout', 1000)
        for h in list(st.pc) + [Z(h) for h in hyps]:
            if int_atoms_only(h):
                so.add(h)
        memo = {}

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_bool(t) and is_int_atom(t):
                so.push()
                so.add(z3.Not(t))
                a = so.check()
                so.pop()
                if a == z3.unsat:
                    r = z3.BoolVal(True)
                else:
                    so.push()
                    so.add(t)
                    b = so.check()
                    so.pop()
                    if b == z3.unsat:
                        r = z3.BoolVal(False)
            elif z3.is_app(t) and t.num_args():
                ch = t.children()
                if t.decl().kind() == z3.Z3_OP_ITE:
                    c = z3.simplify(walk(ch[0]))
                    if z3.is_true(c):
                        r = walk(ch[1])
                    elif z3.is_false(c):
                        r = walk(ch[2])
                    else:
                        r = z3.If(c, walk(ch[1]), walk(ch[2]))
                else:
                    n = [walk(c) for c in ch]
                    if t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                        r = z3.simplify(z3.And(*n) if t.decl().kind() == z3.Z3_OP_AND else z3.Or(*n))
                    elif any(not a.eq(b) for a, b in zip(ch, n)):
                        r = t.decl()(*n)
            memo[k] = (t, r)
            return r
        return z3.simplify(walk(x))

    def resolve(self, st, hyps, x, timeout=4000):
        """x with the conditions of its conditionals decided, outermost first, where the path condition and hyps decide them"""
        if isinstance(x, F):
            return F(self.resolve(st, hyps, x.v), self.resolve(st, hyps, x.nan), self.resolve(st, hyps, x.inf))
        if not isz(x):
            return x
        base = list(st.pc) + [Z(h) for h in hyps]
        if z3.is_bool(x):
            if T.check(base + [x], timeout, rounds=2) == 'unsat':
                return False
            if T.check(base + [z3.Not(x)], timeout, rounds=2) == 'unsat':
                return True
            return x
        memo = {}

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_app(t) and t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                ch = t.children()
                if t.decl().kind() == z3.Z3_OP_ITE:
                    if T.check(base + [ch[0]], timeout, rounds=2) == 'unsat':
                        r = walk(ch[2])
                    elif T.check(base + [z3.Not(ch[0])], timeout, rounds=2) == 'unsat':
                        r = walk(ch[1])
                elif not z3.is_bool(t):
                    n = [walk(c) for c in ch]
                    if any(not a.eq(b) for a, b in zip(ch, n)):
                        r = T.rebuild_app(t, n)
            memo[k] = (t, r)
            return r
        return walk(x)

    def equate(self, st, hyps, x, cands):
        """x with subterms that are provably equal (under the path condition and hyps) to one of cands replaced by it; innermost first"""
        if isinstance(x, F):
            return F(self.equate(st, hyps, x.v, cands), self.equate(st, hyps, x.nan, cands), self.equate(st, hyps, x.inf, cands))
        if not isz(x):
            return x
        cs = [(c, leaves(z3.simplify(c))) for c in cands]
        base = list(st.pc) + [Z(h) for h in hyps]
        memo = {}

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_app(t) and t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                n = [walk(c) for c in t.children()]
                if any(not a.eq(b) for a, b in zip(t.children(), n)):
                    r = T.rebuild_app(t, n)
                if z3.is_real(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ADD):
                    lv = leaves(z3.simplify(r))
                    for c, lc in cs:
                        if lc == lv and not r.eq(c) and T.check(base + [r != c], 3000, rounds=2) == 'unsat':
                            r = c
                            break
            memo[k] = (t, r)
            return r
        return walk(x)

    def q0(self):
        if getattr(self, '_q0', None) is None:
            self._q0 = T.bound_int('q')
        return self._q0

    def sum_split(self, n, parts, kind='real'):
        """lemma schema (induction on n): the sum of pointwise sums is the sum of the sums; returns (symbol of the whole, fact)"""
        q = self.q0()
        ps = [p(q) for p in parts]
        whole = T.mk_sum(n, q, sum(ps[1:], ps[0]), kind, False)
        tot = 0
        for p in ps:
            x = T.mk_sum(n, q, p, kind)
            tot = tot + (T.ZR(x) if kind == 'real' else Z(x))
        return whole, (T.ZR(whole) if kind == 'real' else Z(whole)) == tot

    def sum_le(self, name, st, n, a, b, extra=(), kind='real'):
        """lemma schema: a(q) <= b(q) for 0 <= q < n (an obligation) gives Sum a <= Sum b"""
        q = self.q0()
        self.prove('lemma (pointwise): ' + name, st, a(q) <= b(q), list(extra) + [0 <= q, q < n])
        x, y = T.mk_sum(n, q, a(q), kind, False), T.mk_sum(n, q, b(q), kind, False)
        return Z(x) <= Z(y)

    def induct(self, name, st, P, extra=()):
        """lemma by induction: P(0), and P(m) => P(m+1) for m >= 0 (both obligations); returns m -> (m >= 0 => P(m))"""
        m = T.bound_int('m')
        self.prove('lemma (base): ' + name, st, P(z3.IntVal(0)), extra)
        self.prove('lemma (step): ' + name, st, P(m + 1), list(extra) + [m >= 0, P(m)])
        return lambda x: z3.Implies(Z(x) >= 0, P(Z(x)))

    def flag(self, name, ok, note=''):
        o = Ob(name, self.fname)
        o.status, o.backend, o.note = 'ok' if ok else 'failed', 'simplifier', note
        self.obs.append(o)
        return o

    def given(self, vars_, f):
        """a hypothesis 'for all vars: f' that holds only where the returned condition is assumed"""
        g = z3.Bool(T.REG.fresh('given'))
        T.REG.forall(list(vars_), z3.Implies(g, f))
        return g

    def monotone(self, f, n):
        """condition under which f is non-decreasing on 0 .. n-1 (pairwise at the applications in the query)"""
        g = z3.Bool(T.REG.fresh('monotone'))
        seen = []

        def inst(i, f=f, n=n, g=g):
            out = [z3.Implies(z3.And(g, 0 <= x, x < n, 0 <= i, i < n), z3.And(z3.Implies(x <= i, f(x) <= f(i)), z3.Implies(i <= x, f(i) <= f(x)))) for x in seen]
            seen.append(i)
            return out
        T.REG.ax.setdefault(f.name(), []).append(inst)
        return g

    def cover(self, name, st, extra=()):
        """vacuity check: the hypotheses are satisfiable (or at least not refutable)"""
        r = T.check(list(st.pc) + [Z(e) for e in extra], 5000, rounds=2)
        o = Ob('cover: ' + name, self.fname)
        o.status, o.backend, o.note = ('vacuous' if r == 'unsat' else 'ok'), 'z3', r
        self.obs.append(o)
        return o

    def discharge_loops(self):
        """loop obligations (base and step of every inferred closed form and invariant), callee preconditions"""
        done = set()
        for ob in self.I.obligs:
            if id(ob) in done:
                continue
            done.add(id(ob))
            o = self.prove('%s %s' % (ob.kind, ob.name), ob.hyps, ob.goal)
            if o.status == 'failed' and ob.kind != 'callee-pre':
                o.status = 'unknown'        # an inferred loop description that does not fit says nothing about the property
                o.note = 'inferred description not inductive; ' + o.note
                self.loops_ok = False
        if not getattr(self, 'loops_ok', True):
            for o in self.obs:
                if o.status == 'failed':
                    o.status = 'unknown'
                    o.note = 'depends on an undecided loop description; ' + o.note
        self.I.obligs = []

    def report(self):
        self.discharge_loops()
        for o in self.obs:
            print('%-8s %6.2fs %-10s %s %s' % (o.status, o.time, o.backend, o.name, o.note if o.status != 'ok' else ''))
        for o in self.I.obligs:
            print('   loop oblig', o.kind, o.name)


def first_cond(ts):
    """an atom of the outermost condition of a conditional term"""
    def atom(c):
        while True:
            if z3.is_not(c):
                c = c.arg(0)
            elif z3.is_and(c) or z3.is_or(c):
                c = c.arg(0)
            elif z3.is_app_of(c, z3.Z3_OP_ITE):
                c = c.arg(0)
            else:
                return c
    for t in ts:
        if not isz(t):
            continue
        if z3.is_bool(t):
            t = z3.simplify(t)
            if z3.is_true(t) or z3.is_false(t):
                continue
            return atom(t)
        stack = [t]
        while stack:
            y = stack.pop(0)
            if z3.is_app_of(y, z3.Z3_OP_ITE):
                return atom(y.arg(0))
            if z3.is_app(y) and y.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                stack += y.children()
    return None
