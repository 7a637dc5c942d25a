"""Loop summaries: infer an exact description of the state at the head of iteration k, then prove it.

Inference is untrusted: every closed form is checked by a base and a step obligation; a leaf without closed form is described
by its defining recursion (an uninterpreted function with the recursion equation), which is a definition, not a guess.
"""
import time
import z3
from . import terms as T
from .terms import F, Unsupported, isz, band, bor, bnot, imp, ite, ieq, ilt, ile, iadd, isub, subst, rewrite, mentions, mentions_any, Z
from .values import *
from . import values as V


import os
DEBUG = int(os.environ.get('PYVC_LOOPS', '0'))


class LoopFail(Unsupported):
    pass


def for_loop(I, st, n, step, site, temps=()):
    if not isz(n):
        if n <= I.UNROLL or n <= 0:
            return unroll(I, st, n, step)
    d = I.decide(st, ile(n, 0))
    if d is True:
        return [('next', st, None)]
    if I.decide(st, ile(1, n)) is not True:
        return Summary(I, st, n, step, site, temps).run()
    snap, nob = T.REG.snapshot(), len(I.obligs)
    try:
        return Summary(I, st.copy(), n, step, site, temps).run()
    except V.NoStructure:
        # a variable that changes its structure in the first iteration: that iteration by itself, then the others
        T.REG.restore(snap)
        del I.obligs[nob:]
        outs = []
        for o in unroll(I, st, 1, step):
            if o[0] != 'next':
                outs.append(o)
            else:
                outs += for_loop(I, o[1], isub(n, 1), lambda y, k: step(y, iadd(k, 1)), site, temps)
        return outs


def unroll(I, st, n, step):
    cur, outs = [st], []
    for k in range(n):
        res = []
        for c in cur:
            for o in step(c, k):
                res.append(('next', o[1], None) if o[0] == 'continue' else ('broke', o[1], None) if o[0] == 'break' else o)
        res = I.join(res)
        cur = [o[1] for o in res if o[0] == 'next']
        outs += [o for o in res if o[0] != 'next']
        if not cur:
            break
    return [('next', c, None) for c in cur] + outs


def while_loop(I, st, test, body, site, temps=()):
    # a bounded number of concrete iterations first, if the test folds
    cur, outs = st, []
    for _ in range(64):
        r = test(cur.copy())
        if len(r) != 1 or r[0][0] != 'ok':
            break
        d = r[0][2] if isinstance(r[0][2], bool) else I.decide(r[0][1], r[0][2])
        if d is False:
            return outs + [('next', r[0][1], None)]
        if d is None or not isinstance(r[0][2], bool):
            break
        res = [('next', o[1], None) if o[0] == 'continue' else ('broke', o[1], None) if o[0] == 'break' else o for o in body(r[0][1])]
        res = I.join(res)
        nx = [o[1] for o in res if o[0] == 'next']
        outs += [o for o in res if o[0] != 'next']
        if not nx:
            return outs
        if len(nx) > 1:
            break
        cur = nx[0]

    def step(y, k):
        res = []
        for kk, s2, c in test(y):
            if kk == 'raise':
                res.append(('raise', s2, c))
                continue
            res += I.branch(s2, c, lambda z: body(z), lambda z: [('exit', z, None)])
        return res
    return outs + Summary(I, cur, None, step, site, temps).run()


class Leaf:
    __slots__ = ('key', 'name', 'arity', 'sort', 'decl', 'params', 'T', 'init', 'closed', 'how', 'conditional', 'uniq')


class Key:
    """one modified variable or heap cell"""

    def __init__(self, key):
        self.key = key
        self.skel = None
        self.cond_init = False      # the structure exists only after the first iteration
        self.init = None
        self.leaves = []
        self.frozen = False
        self.dead = False           # a temporary without common structure: unreadable at the head


class Summary:
    def __init__(self, I, st, n, step, site, temps=()):
        self.temps = temps
        self.I, self.st, self.n, self.step = I, st, n, step
        c = I.loopcount.get(site, 0)
        self.site = site
        self.tag = str(site)
        self.k = T.bound_int('k')
        self.is_while = n is None
        self.keys = {}
        self.outer = st.loops

    def keyname(self, key):
        k = key.key
        return k[2] if k[0] == 'env' else 'cell'

    # ---- reading and writing keys
    def read(self, s, key):
        if key[0] == 'env':
            fr = s.frames.get(key[1])
            if fr is None:
                return UNDEF
            return fr.get(key[2], UNDEF)
        return s.heap.get(key[1], UNDEF)

    def write(self, s, key, v):
        if key[0] == 'env':
            if v is UNDEF:
                s.frames[key[1]].pop(key[2], None)
            else:
                s.frames[key[1]][key[2]] = v
        else:
            s.heap[key[1]] = v

    def diff(self, a, b):
        out = set()
        for f in a.frames:
            fa, fb = a.frames[f], b.frames.get(f)
            if fb is None:
                continue
            for x in set(fa) | set(fb):
                if x.startswith('$'):
                    continue
                if fa.get(x, UNDEF) is not fb.get(x, UNDEF) and not _same_val(fa.get(x, UNDEF), fb.get(x, UNDEF)):
                    out.add(('env', f, x))
        for c in set(b.heap):
            if c in a.heap and a.heap[c] is not b.heap[c]:
                out.add(('cell', c))
        for c in set(b.heap):
            if c not in a.heap and isinstance(c, tuple):
                out.add(('cell', c))
        return out

    def head(self, at):
        """state at the head of iteration k with modified keys given by at(key)"""
        s = self.st.copy()
        s.loops = self.st.loops + (self.k,)
        s.assume(ile(0, self.k))
        if self.n is not None:
            s.assume(ilt(self.k, self.n))
        for key in self.keys.values():
            self.write(s, key.key, at(key, s))
        return s

    def merged_next(self, outs):
        res = [('next', o[1], None) if o[0] in ('continue', 'next') else o for o in outs]
        nx = [o[1] for o in res if o[0] == 'next']
        ex = [o for o in res if o[0] != 'next']
        if len(nx) > 1:
            nx = [self.I.merge(nx)]
        return (nx[0] if nx else None), ex

    # ---- generic content X
    def deep(self, v, s, base):
        """value with references to cells allocated inside the body replaced by their contents"""
        if isinstance(v, Ref):
            if v.cid in base.heap or isinstance(v.cid, tuple):
                return v
            return Fresh(self.deep(s.heap[v.cid], s, base))
        if isinstance(v, tuple):
            return tuple(self.deep(x, s, base) for x in v)
        if isinstance(v, LVal) and v.items is not None:
            return LVal(None, items=[self.deep(self.I.lib.embed(s, x) if isinstance(x, Path) else x, s, base) for x in v.items])
        if isinstance(v, DVal):
            return DVal({k: self.deep(x, s, base) for k, x in v.d.items()}, v.note)
        if isinstance(v, OVal):
            return OVal(v.cls, {k: self.deep(x, s, base) for k, x in v.attrs.items()})
        if isinstance(v, Choice):
            return Choice([(g, self.deep(x, s, base)) for g, x in v.alts])
        return v

    def setup_key(self, key, newv):
        """(re)compute the structure of a key from its initial and its new value"""
        if key.dead:
            return False
        try:
            return self.setup_key0(key, newv)
        except Unsupported:
            if key.key[0] != 'env':
                raise
            key.dead, key.leaves, key.skel = True, [], None
            return True

    def setup_key0(self, key, newv):
        init = self.read(self.st, key.key)
        old = (key.skel, key.cond_init)
        sk_new, _ = flat(newv)
        if key.key[0] == 'env' and isinstance(init, Ref) and isinstance(newv, Fresh) and isinstance(newv.v, LVal) and init.cid in self.st.heap \
                and isinstance(self.st.heap[init.cid], LVal):
            # a variable rebound to a new list in every iteration: described by value, neither list may be changed in place afterwards
            c = self.st.heap[init.cid]
            init = Fresh(self.I.lib.deepval(self.st, c))
            self.I.moved[id(c)] = c
            key.frozen = True
        init = self.by_value(key, init, newv)
        try:
            sk_init, _ = flat(init) if init is not UNDEF else (None, None)
        except Unsupported:
            sk_init = None
        j = V.join_skel(sk_init, sk_new) if sk_init is not None else None
        if j is not None and not key.cond_init:
            key.skel = j if key.skel is None else (V.join_skel(key.skel, j) or j)
        else:
            if key.skel is not None and key.cond_init:
                jj = V.join_skel(key.skel, sk_new)
                if jj is None:
                    raise LoopFail('changing structure of %s' % (key.key,))
                key.skel = jj
            else:
                key.skel = _strip_undef(sk_new)
            key.cond_init = True
        key.init = init
        names = V.leaf_names(key.skel)
        if [(l.name, l.arity, l.sort) for l in key.leaves] != names:
            key.leaves = []
            for nm, ar, so in names:
                l = Leaf()
                l.key, l.name, l.arity, l.sort = key, nm, ar, so
                l.decl = z3.Function(T.REG.fresh('X'), *([z3.IntSort()] * (1 + ar) + [so]))
                l.params = [T.bound_int('a') for _ in range(ar)]
                l.closed = None
                l.how = None
                key.leaves.append(l)
            return True
        return old[1] != key.cond_init

    def by_value(self, key, init, newv):
        """a variable or attribute rebound to a new dict in every iteration is described by value; the dict it held before the loop and
        the ones it holds at the loop head are made read-only"""
        if isinstance(init, OVal) and isinstance(newv, OVal) and set(init.attrs) == set(newv.attrs):
            at = {a: self.by_value(key, x, newv.attrs[a]) for a, x in init.attrs.items()}
            return OVal(init.cls, at) if any(at[a] is not x for a, x in init.attrs.items()) else init
        if isinstance(init, Ref) and isinstance(newv, Fresh) and isinstance(newv.v, DVal) and isinstance(self.st.heap.get(init.cid), DVal):
            c = self.st.heap[init.cid]
            if set(c.d) != set(newv.v.d):
                return init
            d = {}
            for k, x in c.d.items():
                if is_num(x) or isinstance(x, (str, SStr)) or x is None:
                    d[k] = x
                elif isinstance(x, Ref) and isinstance(self.st.heap.get(x.cid), LVal) and isinstance(newv.v.d[k], Fresh):
                    l = self.st.heap[x.cid]
                    d[k] = Fresh(self.I.lib.deepval(self.st, l))
                    self.I.moved[id(l)] = l
                else:
                    return init
            self.I.frozen.add(init.cid)
            key.frozen = True
            return Fresh(DVal(d))
        return init

    def xvalue(self, key, s):
        """generic value of the key at the head of iteration k"""
        if key.dead:
            return POISON
        lm = {l.name: l for l in key.leaves}
        v = materialise(self.I, s, rebuildf(key.skel, lambda nm, args: T.fold(lm[nm].decl(self.k, *[Z(a) for a in args]))))
        self.freeze(key, s, v)
        if key.cond_init:
            return either(ilt(0, self.k), v, key.init)
        return v

    def freeze(self, key, s, v):
        if not key.frozen:
            return
        if isinstance(v, OVal):
            for a in v.attrs.values():
                if isinstance(a, Ref) and isinstance(s.heap.get(a.cid), DVal) and a.cid not in self.st.heap:
                    self.freeze(key, s, a)
            return
        if isinstance(v, Ref):
            c = s.heap[v.cid]
            if isinstance(c, DVal):
                self.I.frozen.add(v.cid)
                for x in c.d.values():
                    self.freeze(key, s, x)
            else:
                self.I.moved[id(c)] = c

    def leaf_terms(self, key, v, s):
        """terms of the leaves of value v at the parameters of the leaves"""
        if key.dead:
            return {}
        v = self.deep(v, s, self.st)
        v = coercef(v, key.skel)
        sk, lv = flat(v)
        got = {}
        for nm, args, t in lv:
            got[nm] = (args, t)
        out = {}
        for l in key.leaves:
            if l.name not in got:
                d = _default_leaf(sk, l, got)
                if d is None:
                    raise LoopFail('structure of %s lost leaf %s' % (key.key, l.name))
                out[l] = d
                continue
            args, t = got[l.name]
            out[l] = subst(t, list(zip(args, l.params)))
        return out

    # ---- the algorithm
    def run(self):
        I = self.I
        snap = T.REG.snapshot()
        nob = len(I.obligs)
        for rnd in range(8):
            T.REG.restore(snap_copy(snap))
            del I.obligs[nob:]
            s = self.head(lambda key, s: self.xvalue(key, s))
            inv = self.assume_inv(s, generic=True)
            for hint in I.hints:
                for vars_, f in hint(s):
                    T.REG.forall(vars_, f)
            outs = self.step(s.copy(), self.k)
            nxt, exits = self.merged_next(outs)
            changed = False
            states = ([nxt] if nxt is not None else [])
            for o in exits:
                if o[0] in ('break', 'exit', 'return'):
                    states.append(o[1])
            mods = set()
            for o in states:
                mods |= self.diff(s, o)
            for m in sorted(mods, key=lambda m: (m[0], str(type(m[1])), m[1:])):
                if m not in self.keys:
                    if m[0] == 'env' and nxt is not None and self.read(nxt, m) is UNDEF and self.read(self.st, m) is UNDEF:
                        continue
                    if nxt is None or not _touched(s, nxt, m, self):
                        continue      # modified only on exit paths: handled by the exit state
                    self.keys[m] = Key(m)
                    self.keys[m].dead = m in self.temps
                    changed = True
            if nxt is not None:
                for key in self.keys.values():
                    nv = self.deep(self.read(nxt, key.key), nxt, self.st)
                    ch = bool(self.setup_key(key, nv))
                    if ch and DEBUG:
                        print('CHANGED', rnd, key.key, key.skel, key.cond_init, [x.name for x in key.leaves][:9])
                    changed |= ch
            if not changed:
                break
        else:
            raise LoopFail('loop modifications do not stabilise')
        self.exits = exits
        self.nxt_events(s, nxt)
        if nxt is None:
            # the body never completes an iteration
            self.keys = {}
        self.solve(s, nxt)
        # verification run with the closed forms
        T.REG.restore(snap_copy(snap))
        del I.obligs[nob:]
        self.define_recursive(nxt)
        s = self.head(lambda key, s: self.cvalue(key, s, self.k))
        self.assume_inv(s, generic=False)
        s0 = s
        outs = self.step(s.copy(), self.k)
        nxt, exits = self.merged_next(outs)
        self.verify(s0, nxt)
        return self.finish(s0, nxt, exits)

    def nxt_events(self, s, nxt):
        pass

    # ---- view invariants
    def assume_inv(self, s, generic):
        self.inv_used = []
        for inv in self.I.invs:
            for name, vars_, f in inv(s):
                self.inv_used.append((inv, name))
                T.REG.forall(vars_, f)
        return self.inv_used

    # ---- solving
    def solve(self, s, nxt):
        if nxt is None:
            return
        leaves = []
        terms = {}
        for key in self.keys.values():
            tt = self.leaf_terms(key, self.read(nxt, key.key), nxt)
            it = self.init_terms(key)
            for l in key.leaves:
                l.T = guard_norm(tt[l], l.params, {x.decl.name() for kk in self.keys.values() for x in kk.leaves})
                l.init = it.get(l)
                leaves.append(l)
        self.leaves = leaves
        self.byname = {l.decl.name(): l for l in leaves}
        self.pc_next = nxt.pc
        todo = list(leaves)
        progress = True
        while todo and progress:
            progress = False
            for l in list(todo):
                t = self.rw(l.T)
                c = self.try_solve(l, t, s, nxt)
                if c is not None:
                    l.closed = c
                    todo.remove(l)
                    progress = True
        self.rec = todo
        if DEBUG:
            print('LOOP', self.site, 'while' if self.is_while else self.n, 'outer', self.outer)
            for l in leaves:
                print('   %-28s %-10s' % (str(l.key.key[1:]) + l.name, l.how), '' if l.how is not None else str(self.rw(l.T))[:DEBUG] + ' | init ' + str(l.init)[:100])
        for l in todo:
            l.how = 'recursive'
            l.closed = None

    def init_terms(self, key):
        if key.cond_init or key.dead:
            return {}
        v = coercef(key.init, key.skel)
        sk, lv = flat(v)
        got = {nm: (a, t) for nm, a, t in lv}
        out = {}
        for l in key.leaves:
            if l.name in got:
                a, t = got[l.name]
                out[l] = subst(t, list(zip(a, l.params)))
            else:
                d = _default_leaf(sk, l, got)
                out[l] = d
        return out

    def rw(self, t):
        """replace solved leaves at head of k by their closed forms"""
        fm = {}
        for l in self.leaves:
            if l.closed is not None:
                fm[l.decl.name()] = (lambda a, l=l: l.closed(a[0], a[1:]))
        if not fm or not isz(t):
            return t
        return rewrite(t, fm)

    def mk_closed(self, l, fn):
        """fn(j, params) -> term over constants; returned function substitutes"""
        j = T.bound_int('j')
        t = fn(j, l.params)
        ps = list(l.params)

        def closed(jj, args):
            return T.refold(subst(t, [(j, jj)] + list(zip(ps, args))))
        return closed

    def try_shifted(self, l, t, X, unsolved):
        k = self.k
        first = T.fold(z3.simplify(Z(subst(t, [(k, 0)])))) if isz(t) else t
        if T.mentions_any(first, unsolved):
            return None
        o, e = z3.IntVal(0), z3.IntVal(1)
        at = [(o < k, True), (k > o, True), (k == o, False), (o == k, False), (k <= o, False), (o >= k, False), (k >= e, True), (e <= k, True), (k < e, False), (e > k, False)]
        later = T.fold(z3.simplify(z3.substitute(Z(t), *[(a, z3.BoolVal(b)) for a, b in at])))
        if isz(later) and z3.simplify(X).eq(later):
            l.how = 'first'
            return self.mk_closed(l, lambda j, ps: first)
        if l.sort not in (z3.RealSort(), z3.IntSort()):
            return None
        d = delta(later, X)
        if d is None or T.mentions_any(d, unsolved):
            return None
        l.how = 'first-sum'
        q = T.bound_int('s')

        def acc(j, ps):
            if not isz(d) or not mentions(d, k):
                return times(first, d, isub(j, 1), l.sort)
            x = subst(d, [(k, iadd(q, 1))])
            if l.sort == z3.IntSort():
                return iadd(first, T.mk_sum(isub(j, 1), q, x, 'int'))
            return T.radd(first, T.mk_sum(isub(j, 1), q, x))
        return self.mk_closed(l, acc)

    def try_solve(self, l, t, s, nxt):
        k = self.k
        X = Z(l.decl(k, *l.params))
        names = set(self.byname)
        unsolved = {x.decl.name() for x in self.leaves if x.closed is None}
        if isz(t) and t.eq(X):
            l.how = 'unchanged'
            return self.mk_closed(l, lambda j, ps: l.init)
        # independent of every unsolved leaf: last value
        if not T.mentions_any(t, unsolved):
            l.how = 'last'

            def last(j, ps):
                v = subst(t, [(k, isub(j, 1))])
                if l.init is None:
                    return v
                return ite(ile(j, 0), l.init, v)
            return self.mk_closed(l, last)
        others = unsolved - {l.decl.name()}
        # exists from the second iteration on: the first iteration gives the initial value
        if l.init is None and not l.arity:
            c = self.try_shifted(l, t, X, unsolved)
            if c is not None:
                return c
        # written only by its own iteration
        if l.arity and l.init is not None and not self.growing(l):
            c = self.try_owner(l, t, X, s, nxt)
            if c is not None:
                return c
        # growing lists
        if self.growing(l):
            c = self.try_append(l, t, X, s, nxt, others)
            if c is not None and l.how != 'append-rec':
                return c
            getattr(self, 'pending_append', {}).pop(l, None)
            l.how = None
        # additive
        if l.sort in (z3.RealSort(), z3.IntSort()):
            d = delta(t, X)
            if d is not None and not T.mentions_any(d, unsolved) and l.init is not None:
                l.how = 'sum'
                q = T.bound_int('s')

                def acc(j, ps):
                    if not isz(d) or not mentions(d, k):
                        return times(l.init, d, j, l.sort)       # j is never negative
                    if l.sort == z3.IntSort():
                        return iadd(l.init, T.mk_sum(j, q, subst(d, [(k, q)]), 'int') if not _is01(d) else
                                    T.mk_count(j, q, _cond01(subst(d, [(k, q)]))))
                    return T.radd(l.init, T.mk_sum(j, q, subst(d, [(k, q)])))
                return self.mk_closed(l, acc)
        # disjunction accumulator
        if l.sort == z3.BoolSort():
            d = disj(t, X)
            if d is not None and not T.mentions_any(d, unsolved) and l.init is not None:
                l.how = 'or'
                q = T.bound_int('s')
                z = subst(d, [(k, 0)])
                if z is True or (isz(z) and z3.is_true(z3.simplify(z))):
                    return self.mk_closed(l, lambda j, ps: bor(l.init, ilt(0, j)))
                return self.mk_closed(l, lambda j, ps: bor(l.init, ilt(0, T.mk_count(j, q, subst(d, [(k, q)])))))
        c = self.try_owner(l, t, X, s, nxt)
        if c is not None:
            l.how = 'owner'
            return c
        c = self.try_append(l, t, X, s, nxt, others)
        if c is not None:
            return c
        return None

    def growing(self, l):
        g = next((x for x in l.key.leaves if x.name == 'len'), None) if l.name.startswith('e.') else None
        return g is not None and not (g.closed is not None and g.how == 'unchanged')

    def valid(self, pc, f, timeout=4000):
        if DEBUG > 1:
            print('   valid?', str(f)[:DEBUG], flush=True)
        if f is True:
            return True
        if f is False:
            return T.check(pc, timeout) == 'unsat'
        return T.check(list(pc) + [Z(bnot(f))], timeout, rounds=2) == 'unsat'

    def try_owner(self, l, t, X, s, nxt):
        if not l.arity or l.init is None:
            return None
        k = self.k
        # X is only read at this leaf's own parameters or at the owned index
        for a in range(l.arity):
            p = l.params[a]
            for c in owner_offsets(t, p, k):
                eqc = ieq(p, iadd(k, c))
                t_off = simp_under(t, p, k, c, False)
                if not (isz(t_off) and t_off.eq(X)):
                    if DEBUG > 1:
                        print('   t_off', str(t_off)[-DEBUG:], 'X', X)
                    if not self.valid(nxt.pc + [Z(bnot(eqc))], teq(t, X)):
                        continue
                t_on = subst(t, [(k, isub(p, c))])
                # reads of X inside t_on: must be at own index with arg_a == p
                ok = True
                fm = {}
                others_unsolved = {x.decl.name() for x in self.leaves if x.closed is None and x is not l}
                group = {x.decl.name(): x for x in self.leaves if x.closed is None and x.arity > 0}
                names = set(group)
                bad = []
                for app in T.apps_of(t_on, {x.decl.name() for x in self.leaves if x.closed is None}):
                    nm = app.decl.name() if False else app.decl().name()
                    x = self.byname[nm]
                    arg = app.children()[1:]
                    if x.arity > a and x.init is not None and self.same_owner(x, a, c) and \
                            (arg[a].eq(p) or T.isub(arg[a], p) == 0):
                        continue
                    # an element that has not been reached yet (index above the owner's)
                    if x.arity > a and x.init is not None and self.same_owner(x, a, c) and \
                            not isz(isub(arg[a], p)) and isub(arg[a], p) > 0:
                        continue
                    bad.append(app)
                if bad:
                    continue

                def rep(x):
                    def f(args):
                        return subst(x.init, list(zip(x.params, args[1:])))
                    return f
                fm = {nm: rep(x) for nm, x in group.items() if x.init is not None}
                val = rewrite(t_on, fm)
                lo = c

                def own(j, ps, val=val, p=p, c=c):
                    d = isub(p, c)
                    return ite(band(ile(0, d), ilt(d, j)), val, l.init)
                l.how = 'owner'
                return self.mk_closed(l, own)
        return None

    def same_owner(self, x, a, c):
        """is x (unsolved) also only written at index k+c of axis a"""
        p = x.params[a]
        t = self.rw(x.T)
        X = Z(x.decl(self.k, *x.params))
        if isz(t) and t.eq(X):
            return True
        t_off = simp_under(t, p, self.k, c, False)
        if isz(t_off) and t_off.eq(X):
            return True
        return self.valid(self.pc_next + [Z(bnot(ieq(p, iadd(self.k, c))))], teq(t, X))

    def try_append(self, l, t, X, s, nxt, others):
        """element leaf of a list whose length grows by a 0/1 count"""
        if '.e.' not in '.' + l.name and not l.name.startswith('e.'):
            return None
        k = self.k
        # find the list this element belongs to: the longest prefix that is a len leaf
        cand = []
        parts = l.name
        idx = -1
        while True:
            idx = parts.find('e.', idx + 1)
            if idx < 0:
                break
            if idx == 0 or parts[idx - 1] == '.':
                cand.append(idx)
        for idx in reversed(cand):
            lenname = l.name[:idx] + 'len'
            ll = next((x for x in l.key.leaves if x.name == lenname), None)
            if ll is None or ll.closed is None or ll.init is None:
                continue
            ar = ll.arity
            p = l.params[ar]
            pre = l.params[:ar]
            lk = ll.closed(k, pre)
            lk1 = ll.closed(iadd(k, 1), pre)
            lT = subst(self.rw(ll.T), list(zip(ll.params, pre)))
            d = delta(subst(ll.T, list(zip(ll.params, pre))), Z(ll.decl(k, *pre)))
            if d is None:
                continue
            d = self.rw(d)
            if not isz(d) and d == 0:
                continue
            len0 = subst(ll.init, list(zip(ll.params, pre)))
            if not (d == 1 if not isz(d) else _is01(d)):
                return self.try_extend(l, t, X, d, ll, pre, p, len0, s, nxt)
            # outside position len(k) nothing changes
            t2 = simp_at(t, p, lk, False)
            if not (isz(t2) and t2.eq(X)) and not self.valid(nxt.pc + [Z(ilt(p, lk))], teq(t, X)):
                continue
            cond = True if not isz(d) else _cond01(d)
            v = simp_at(t, p, lk, True)
            v = subst(v, [(p, lk)]) if isz(v) else v
            if isz(v):
                v = strip_guard(v, cond)
                v2 = drop_self(v, X, self, nxt.pc + [Z(cond)] + self.alt_guards(l, iadd(k, 1), [(p, lk)]), l)
                v = v if v2 is None else v2
            unsolved = {x.decl.name() for x in self.leaves if x.closed is None}
            n = self.n if self.n is not None else self.Nsym()
            q = T.bound_int('s')
            if not isz(cond) or not mentions(Z(cond), k):
                sel = lambda r: r
            else:
                cnt, sel = T.mk_filter(n, q, subst(cond, [(k, q)]))
            if T.mentions_any(v, unsolved):
                self.pending_append = getattr(self, 'pending_append', {})
                self.pending_append[l] = (v, p, pre, len0, sel, cond)
                l.how = 'append-rec'
                A = z3.Function(T.REG.named('App@%s/%s%s' % (self.tag, self.keyname(l.key), l.name)), *([z3.IntSort()] * (len(self.outer) + l.arity) + [l.sort]))
                outer = list(self.outer)
                self.appdecl = getattr(self, 'appdecl', {})
                self.appdecl[l] = A

                def app(j, ps):
                    return ite(ilt(p, len0), l.init if l.init is not None else Z(A(*outer, *ps)), Z(A(*outer, *ps)))
                return self.mk_closed(l, app)
            l.how = 'append'

            def elem(j, ps):
                val = subst(v, [(k, sel(isub(p, len0)))])
                if l.init is None or (not isz(len0) and len0 == 0 and (not isz(cond) or mentions(cond, k))):
                    return val
                if isz(cond) and not mentions(cond, k):
                    return ite(band(cond, ile(len0, p)), val, l.init)
                return ite(ilt(p, len0), l.init, val)
            return self.mk_closed(l, elem)
        return None

    def try_extend(self, l, t, X, d, ll, pre, p, len0, s, nxt):
        """element leaf of a list that grows by d(k) >= 0 elements per iteration"""
        k = self.k
        unsolved = {x.decl.name() for x in self.leaves if x.closed is None}
        lk = ll.closed(k, pre)
        if not self.valid(nxt.pc, ile(0, d)):
            return None
        if not self.valid(nxt.pc + [Z(ilt(p, lk))], teq(t, X)):
            return None
        # value written: t at p >= lk
        r = T.bound_int('r')
        v = subst(t, [(p, iadd(lk, r))])
        v = drop_self(v, X, self, nxt.pc + [Z(ile(0, r)), Z(ilt(r, d))] + self.alt_guards(l, iadd(k, 1), [(p, iadd(lk, r))]), l)
        if v is None or T.mentions_any(v, unsolved):
            return None
        n = self.n if self.n is not None else self.Nsym()
        # owner of position p among iterations: Own(p) with off(Own) <= p-len0 < off(Own+1)
        q = T.bound_int('s')
        off = lambda j: isub(ll.closed(j, pre), len0)
        params = [c for c in sorted(T.free_consts(Z(off(q))), key=lambda c: c.get_id()) if T.is_bound(c) and not c.eq(q)]
        key = 'Own:' + str(Z(off(z3.Int('jj'))).sexpr())
        if key not in T.REG.keyed:
            T.REG.keyed[key] = (z3.Function(T.REG.fresh('Own'), *([z3.IntSort()] * (2 + len(params)) + [z3.IntSort()])), params)
        D, params = T.REG.keyed[key]

        def fact():
            # off(0) = 0 <= p < off(n): there is a first iteration after which the list is longer than p
            pp = T.bound_int('p')
            nn = T.bound_int('n')
            o = D(pp, nn, *params)
            f = z3.Implies(z3.And(0 <= pp, pp < Z(off(nn))),
                           z3.And(0 <= o, o < nn, Z(off(o)) <= pp, pp < Z(off(iadd(o, 1)))))
            T.REG.forall([pp, nn] + params, f, triggers=[(D.name(), [(pp, 0, 0), (nn, 1, 0)] + [(c, 2 + i, 0) for i, c in enumerate(params)])])
        fact()
        self.refacts = getattr(self, 'refacts', []) + [fact]
        l.how = 'extend'
        if not (isz(d) and mentions(d, k)):
            # equal steps: the iteration that owns position p is unique (products, proved on its own)
            x = isub(p, len0)
            o = D(Z(x), Z(n), *params)
            hyp = [Z(ile(0, d)), Z(off(o) <= x), Z(x < Z(off(iadd(o, 1)))), Z(ile(off(k), x)), Z(ilt(x, off(iadd(k, 1))))]
            l.uniq = (hyp, o == k)
        else:
            l.uniq = None

        def elem(j, ps):
            o = D(Z(isub(p, len0)), Z(n), *params)
            val = subst(v, [(k, o), (r, isub(isub(p, len0), off(o)))])
            if l.init is None or (not isz(len0) and len0 == 0):
                return val
            return ite(ilt(p, len0), l.init, val)
        return self.mk_closed(l, elem)

    def Nsym(self):
        """number of completed iterations of a while loop"""
        if not hasattr(self, '_N'):
            nm = T.REG.named('N@%s' % (self.tag,))
            if self.outer:
                self._Nd = z3.Function(nm, *([z3.IntSort()] * len(self.outer) + [z3.IntSort()]))
                self._N = self._Nd(*self.outer)
            else:
                self._Nd = None
                self._N = z3.Const(nm, z3.IntSort())
        return self._N

    def define_recursive(self, nxt):
        """axioms of recursively defined leaves"""
        for f in getattr(self, 'refacts', ()):
            f()
        if nxt is None:
            return
        k = self.k
        outer = list(self.outer)
        n = self.n if self.n is not None else self.Nsym()
        if self.rec:
            for l in self.rec:
                H = z3.Function(T.REG.named('H@%s/%s%s' % (self.tag, self.keyname(l.key), l.name)), *([z3.IntSort()] * (len(outer) + 1 + l.arity) + [l.sort]))
                l.closed = (lambda j, args, H=H: T.fold(H(*outer, Z(j), *[Z(a) for a in args])))
                self.I.loop_notes.append('%s: leaf %s%s described by its recursion' % (self.site, l.key.key, l.name))
                self.recdecl = getattr(self, 'recdecl', {})
                self.recdecl[l] = H
        fmap = {l.decl.name(): (lambda a, l=l: l.closed(a[0], a[1:])) for l in self.leaves}
        for l in self.rec:
            H = self.recdecl[l]
            base = len(self.st.pc)
            extra = [rewrite(p, fmap) for p in nxt.pc[base:]]
            j = T.bound_int('j')
            body = rewrite(l.T, fmap)
            vars_ = outer + [j] + list(l.params)
            trig = [(H.name(), [(v, i, 0) for i, v in enumerate(vars_)])]
            val = subst(body, [(k, isub(j, 1))])
            lhs = H(*outer, j, *l.params)
            T.REG.forall(vars_, imp(band(ile(1, j), ile(j, n)), lhs == (T.ZR(val) if l.sort == z3.RealSort() else Z(val))), triggers=trig)
            if l.init is not None:
                T.REG.forall(vars_, imp(ieq(j, 0), lhs == (T.ZR(l.init) if l.sort == z3.RealSort() else Z(l.init))), triggers=trig)
        for l, (v, p, pre, len0, sel, cond) in getattr(self, 'pending_append', {}).items():
            A = self.appdecl[l]
            vars_ = outer + list(l.params)
            trig = [(A.name(), [(x, i, 0) for i, x in enumerate(vars_)])]
            kk = sel(isub(p, len0))
            val = rewrite(subst(v, [(k, kk)]), fmap)
            lhs = A(*outer, *l.params)
            cc = True if not isz(cond) else rewrite(subst(cond, [(k, kk)]), fmap)
            T.REG.forall(vars_, imp(band(ile(len0, p), ile(0, kk), ilt(kk, n), cc),
                                    lhs == (T.ZR(val) if l.sort == z3.RealSort() else Z(val))), triggers=trig)

    def cvalue(self, key, s, j):
        if key.dead:
            return POISON
        lm = {l.name: l for l in key.leaves}
        v = materialise(self.I, s, rebuildf(subst_skel(key.skel, []), lambda nm, args: lm[nm].closed(j, list(args))))
        self.freeze(key, s, v)
        if key.cond_init:
            d = ilt(0, j)
            if d is True:
                return v
            return either(d, v, key.init)
        return v

    # ---- verification of the closed forms
    def verify(self, s, nxt):
        if nxt is None:
            return
        k = self.k
        for m in self.diff(s, nxt):
            if m in self.keys or (m[0] == 'env' and self.read(nxt, m) is UNDEF and self.read(self.st, m) is UNDEF) or not _touched(s, nxt, m, self):
                continue
            raise LoopFail('modification of %s not described' % (m,))
        for key in self.keys.values():
            tt = self.leaf_terms(key, self.read(nxt, key.key), nxt)
            it = self.init_terms(key)
            for l in key.leaves:
                nm = '%s/%s%s' % (self.site, '.'.join(str(x) for x in key.key[2:]), l.name)
                rng = self.leaf_range(key, l, iadd(k, 1))
                if l.how in ('recursive', 'append-rec'):
                    continue        # definitional
                c1 = l.closed(iadd(k, 1), l.params)
                g = teq(c1, tt[l])
                u = getattr(l, 'uniq', None)
                if u is not None:
                    self.I.obligs.append(Oblig('lemma', nm + '/owner', u[0], u[1], 'lemma'))
                    rng = rng + [z3.Implies(z3.And(u[0]), u[1])]
                self.I.obligs.append(Oblig('loop-step', nm, list(nxt.pc) + rng, g, l.how))
                if it.get(l) is not None:
                    c0 = l.closed(0, l.params)
                    self.I.obligs.append(Oblig('loop-base', nm, list(self.st.pc) + self.leaf_range(key, l, 0), teq(c0, it[l]), l.how))
        for inv in self.I.invs:
            s0 = self.st
            for name, vars_, f in inv(s0):
                self.I.obligs.append(Oblig('inv-base', '%s/%s' % (self.site, name), list(s0.pc), f, 'invariant'))
            for name, vars_, f in inv(nxt):
                self.I.obligs.append(Oblig('inv-step', '%s/%s' % (self.site, name), list(nxt.pc), f, 'invariant'))

    def leaf_range(self, key, l, j):
        """list element leaves matter only below the list's length; array leaves inside the shape"""
        out = []
        name = l.name
        pos = 0
        lm = {x.name: x for x in key.leaves}
        i = -1
        ar = 0
        # every 'e.' component consumes one parameter and is bounded by the len leaf of the prefix
        segs = []
        idx = 0
        pref = ''
        rest = name
        p = 0
        while rest:
            if rest.startswith('e.'):
                ln = lm.get(pref + 'len')
                if ln is not None:
                    a = l.params[p]
                    out += [Z(ile(0, a)), Z(ilt(a, ln.closed(j, l.params[:ln.arity])))]
                p += 1
                pref += 'e.'
                rest = rest[2:]
            elif rest.startswith('a.'):
                shp = find_shape(key.skel, pref)
                if shp is not None:
                    for q, dim in enumerate(shp):
                        a = l.params[p + q]
                        out += [Z(ile(0, a)), Z(ilt(a, dim))]
                    p += len(shp)
                pref += 'a.'
                rest = rest[2:]
            else:
                m = _seg(rest)
                if m.endswith('~'):
                    # a leaf of one alternative matters only where that alternative is taken
                    g = lm.get(pref + '?' + m[:-1])
                    if g is not None and g.closed is not None:
                        out.append(Z(g.closed(j, l.params[:g.arity])))
                pref += m
                rest = rest[len(m):]
        return [x for x in out if not z3.is_true(x)]

    def alt_guards(self, l, j, args):
        """conditions under which the alternatives that leaf l belongs to are taken (solved leaves only)"""
        lm = {x.name: x for x in l.key.leaves}
        out = []
        for i in range(len(l.name)):
            if l.name[i] == '~':
                b = i
                while b > 0 and l.name[b - 1].isdigit():
                    b -= 1
                g = lm.get(l.name[:b] + '?' + l.name[b:i])
                if g is not None and g.closed is not None:
                    out.append(Z(subst(Z(g.closed(j, l.params[:g.arity])), args)))
        return [x for x in out if not z3.is_true(x)]

    # ---- results
    def finish(self, s, nxt, exits):
        I = self.I
        outs = []
        base = len(self.st.pc)
        k = self.k
        real_exits = []
        for o in exits:
            real_exits.append(o)
        fin = self.st.copy()
        ev = self.loop_events(s, nxt)
        if not self.is_while:
            n = self.n
            guard = []
            if real_exits:
                # fresh literal: no exit happened in any iteration
                nx = z3.Bool(T.REG.named('noexit@%s' % (self.tag,)))
                if self.outer:
                    nx = z3.Function(nx.decl().name(), *([z3.IntSort()] * len(self.outer) + [z3.BoolSort()]))(*self.outer)
                guard.append(nx)
                exc = [band(*o[1].pc[base:]) for o in real_exits]
                for e in exc:
                    try:
                        T.REG.forall([k] + [c for c in self.outer], imp(band(nx, ile(0, k), ilt(k, n)), bnot(e)))
                    except Unsupported:
                        pass
            fin.pc += guard
            self.through(nxt, base, guard)
            for key in self.keys.values():
                self.write(fin, key.key, self.final(key, fin, n))
            fin.events = fin.events + [self.bind_event(e, n) for e in ev]
            fin.occ = dict(s.occ if nxt is None else nxt.occ)
            self.after_inv(fin)
            outs.append(('next', fin, None))
        else:
            N = self.Nsym()
            # every completed iteration really continued
            if nxt is not None:
                cont = band(*[p for p in nxt.pc[base:]])
                try:
                    T.REG.forall([k] + list(self.outer), imp(band(ile(0, k), ilt(k, N)), cont))
                except Unsupported:
                    pass
            fpos = imp(True, ile(0, N))
            if self.outer:
                T.REG.forall(list(self.outer), Z(fpos), triggers=[(self._Nd.name(), [(c, i, 0) for i, c in enumerate(self.outer)])])
            else:
                T.REG.facts.append(Z(fpos))
        for o in real_exits:
            kind = o[0]
            if self.is_while:
                kx_ = self.Nsym()
            else:
                nm = T.REG.named('kx@%s' % (self.tag,))
                if self.outer:
                    kx_ = z3.Function(nm, *([z3.IntSort()] * len(self.outer) + [z3.IntSort()]))(*self.outer)
                else:
                    kx_ = z3.Const(nm, z3.IntSort())
            pr = [(k, kx_)]
            x = o[1]
            e = State_subst(x, pr, self.st, base)
            e.loops = self.st.loops
            if not self.is_while:
                if nxt is not None:
                    cont = band(*[p for p in nxt.pc[base:]])
                    try:
                        T.REG.forall([k] + list(self.outer), imp(band(ile(0, k), ilt(k, kx_)), cont))
                    except Unsupported:
                        pass
            e.events = self.st.events + [self.bind_event(v, kx_) for v in ev] + \
                [Event_subst(v, pr) for v in x.events[len(self.st.events):]]
            if kind in ('break', 'exit'):
                outs.append(('broke', e, None))
            else:
                outs.append((kind, e, o[2] if kind == 'raise' else vsubst_any(o[2], pr)))
        bro = [o for o in outs if o[0] == 'broke']
        if len(bro) > 1:
            try:
                m = I.merge([o[1] for o in bro])
                outs = [o for o in outs if o[0] != 'broke'] + [('broke', m, None)]
            except Unsupported:
                pass
        if self.is_while:
            outs = [('next', o[1], None) if o[0] == 'broke' else o for o in outs]
        return outs

    def through(self, nxt, base, guard):
        """every iteration went through with its path condition (facts about where inner loops stopped)"""
        if nxt is None:
            return
        vs = list(self.outer) + [self.k]
        pc = [p for p in nxt.pc[base:] if isz(p)]
        trig, seen, stack = {}, set(), list(pc)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == len(vs) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(('N@', 'kx@')) \
                    and all(a.eq(b) for a, b in zip(x.children(), vs)):
                trig[x.decl().name()] = [(v, i, 0) for i, v in enumerate(vs)]
            stack.extend(x.children())
        if trig:
            T.REG.forall(vs, imp(band(ile(0, self.k), ilt(self.k, self.n), *guard), band(*pc)), triggers=list(trig.items()))

    def after_inv(self, fin):
        for inv in self.I.invs:
            for name, vars_, f in inv(fin):
                try:
                    T.REG.forall(vars_, f)
                except Unsupported:
                    pass

    def final(self, key, s, n):
        if key.dead:
            return POISON
        nn = T.imax(0, n) if isz(n) else n
        if isz(n) and self.I.decide(self.st, ile(0, n)) is True:
            nn = n
        if key.cond_init:
            pos = self.I.decide(self.st, ilt(0, n))
            lm = {l.name: l for l in key.leaves}
            v = materialise(self.I, s, rebuildf(key.skel, lambda nm, args: lm[nm].closed(nn, list(args))))
            if pos is True:
                return v
            if pos is False:
                return key.init
            return either(ilt(0, n), v, key.init)
        return self.cvalue(key, s, nn)

    def loop_events(self, s, nxt):
        if nxt is None:
            return []
        ev = nxt.events[len(self.st.events):]
        return [V_Event(e, self.k) for e in ev]

    def bind_event(self, e, n):
        from .interp import Event
        return Event(e.kind, e.payload, e.guard, ((self.k, n),) + tuple(e.binders))


def V_Event(e, k):
    return e


def Event_subst(e, pr):
    from .interp import Event
    return Event(e.kind, vsubst_any(e.payload, pr), subst(e.guard, pr), [(b, subst(n, pr)) for b, n in e.binders])


def vsubst_any(v, pr):
    if isinstance(v, dict):
        return {k: vsubst_any(x, pr) for k, x in v.items()}
    if isinstance(v, list):
        return [vsubst_any(x, pr) for x in v]
    return V.vsubst(v, pr)


def State_subst(x, pr, st, base):
    """instantiate the loop index in everything the body changed"""
    s = x.copy()
    s.pc = x.pc[:base] + [Z(subst(p, pr)) for p in x.pc[base:]]
    s.pc = [p for p in s.pc if not z3.is_true(p)]
    for f in list(s.frames):
        old = st.frames.get(f, {})
        for nm, v in list(s.frames[f].items()):
            if nm.startswith('$') or old.get(nm, UNDEF) is v:
                continue
            s.frames[f][nm] = V.vsubst(v, pr)
    for c in list(s.heap):
        if c in st.heap and st.heap[c] is s.heap[c]:
            continue
        s.heap[c] = V.vsubst(s.heap[c], pr)
    return s


class Oblig:
    def __init__(self, kind, name, hyps, goal, note=''):
        self.kind, self.name, self.hyps, self.goal, self.note = kind, name, hyps, goal, note
        self.facts = None


# ---------------------------------------------------------------- Fresh cells
class Fresh:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def flat(v, args=()):
    if isinstance(v, Fresh):
        sk, lv = flat(v.v, args)
        return Skel('Fresh', [sk]), lv
    if isinstance(v, tuple) or (isinstance(v, LVal) and v.items is not None and v.items) or isinstance(v, (DVal, OVal, Choice)):
        # structural cases that may contain Fresh
        if isinstance(v, tuple):
            sk, lv = [], []
            for i, x in enumerate(v):
                s, l = flat(x, args)
                sk.append(s)
                lv += [('%d.%s' % (i, n), a, t) for n, a, t in l]
            return Skel('tuple', sk), lv
        if isinstance(v, LVal):
            sk, lv = [], []
            for i, x in enumerate(v.items):
                s, l = flat(x, args)
                sk.append(s)
                lv += [('%d.%s' % (i, n), a, t) for n, a, t in l]
            return Skel('Litems', sk), lv
        if isinstance(v, DVal):
            sk, lv = [], []
            for k, x in v.d.items():
                s, l = flat(x, args)
                sk.append(s)
                lv += [('[%s].%s' % (k, n), a, t) for n, a, t in l]
            return Skel('D', sk, tuple(v.d)), lv
        if isinstance(v, OVal):
            sk, lv = [], []
            for k, x in v.attrs.items():
                s, l = flat(x, args)
                sk.append(s)
                lv += [('.%s.%s' % (k, n), a, t) for n, a, t in l]
            return Skel('Ob', sk, (v.cls, tuple(v.attrs))), lv
        sk, lv = [], []
        for i, (g, x) in enumerate(v.alts):
            s, l = flat(x, args)
            sk.append(s)
            lv += [('?%d' % i, args, g)] + [('%d~%s' % (i, n), a, t) for n, a, t in l]
        return Skel('Choice', sk), lv
    return V.flatten(v, args)


def unfresh(v):
    if isinstance(v, Fresh):
        return unfresh(v.v)
    if isinstance(v, tuple):
        return tuple(unfresh(x) for x in v)
    if isinstance(v, LVal) and v.items is not None:
        return LVal(None, items=[unfresh(x) for x in v.items])
    if isinstance(v, Choice):
        return Choice([(g, unfresh(x)) for g, x in v.alts])
    return v


def unfresh_sk(sk):
    if sk.kind == 'Fresh':
        return unfresh_sk(sk.sub[0])
    if sk.kind in ('tuple', 'L', 'Litems', 'Choice') and sk.sub:
        return Skel(sk.kind, [unfresh_sk(x) for x in sk.sub], sk.extra)
    return sk


def coercef(v, sk):
    if sk.kind == 'L' and isinstance(v, LVal):
        return V.coerce(unfresh(v), sk)
    if sk.kind == 'Fresh':
        if isinstance(v, Fresh):
            return Fresh(coercef(v.v, sk.sub[0]))
        return v
    if isinstance(v, tuple) and sk.kind == 'tuple':
        return tuple(coercef(x, s) for x, s in zip(v, sk.sub))
    if isinstance(v, DVal) and sk.kind == 'D':
        return DVal({k: coercef(v.d[k], s) for k, s in zip(sk.extra, sk.sub)}, v.note)
    if isinstance(v, OVal) and sk.kind == 'Ob':
        return OVal(v.cls, {k: coercef(v.attrs[k], s) for k, s in zip(sk.extra[1], sk.sub)})
    if isinstance(v, Choice) and sk.kind not in ('Choice',):
        v2 = None
        alts = [(g, x) for g, x in v.alts if x is not UNDEF]
        if len(alts) == 1:
            return coercef(alts[0][1], sk)
        raise LoopFail('guarded union in a loop-carried value')
    return V.coerce(v, sk)


def rebuildf(sk, get, args=(), pre=''):
    if sk.kind == 'Fresh':
        return Fresh(rebuildf(sk.sub[0], get, args, pre))
    if sk.kind == 'tuple':
        return tuple(rebuildf(x, get, args, pre + '%d.' % i) for i, x in enumerate(sk.sub))
    if sk.kind == 'Litems':
        return LVal(None, items=[rebuildf(x, get, args, pre + '%d.' % i) for i, x in enumerate(sk.sub)])
    if sk.kind == 'D':
        return DVal({kk: rebuildf(x, get, args, pre + '[%s].' % kk) for kk, x in zip(sk.extra, sk.sub)})
    if sk.kind == 'Ob':
        return OVal(sk.extra[0], {kk: rebuildf(x, get, args, pre + '.%s.' % kk) for kk, x in zip(sk.extra[1], sk.sub)})
    if sk.kind == 'Choice':
        return Choice([(get(pre + '?%d' % i, args), rebuildf(x, get, args, pre + '%d~' % i)) for i, x in enumerate(sk.sub)])
    return V.rebuild(sk, get, args, pre)


def materialise(I, s, v):
    """allocate the cells of Fresh parts"""
    if isinstance(v, Fresh):
        return I.alloc(s, materialise(I, s, v.v))
    if isinstance(v, tuple):
        return tuple(materialise(I, s, x) for x in v)
    if isinstance(v, LVal) and v.items is not None:
        return LVal(None, items=[materialise(I, s, x) for x in v.items])
    if isinstance(v, DVal):
        return DVal({k: materialise(I, s, x) for k, x in v.d.items()}, v.note)
    if isinstance(v, OVal):
        return OVal(v.cls, {k: materialise(I, s, x) for k, x in v.attrs.items()})
    if isinstance(v, Choice):
        return Choice([(g, materialise(I, s, x)) for g, x in v.alts])
    return v


_old_leaf_names = V.leaf_names


def _leaf_names(sk, arity=0):
    if sk.kind == 'Fresh':
        return _leaf_names(sk.sub[0], arity)
    return _old_leaf_names(sk, arity)


V.leaf_names = _leaf_names
_old_join = V.join_skel


def _join(a, b):
    if a.kind == 'Fresh' and b.kind == 'Fresh':
        j = _join(a.sub[0], b.sub[0])
        return Skel('Fresh', [j]) if j is not None else None
    if a.kind == 'Fresh' or b.kind == 'Fresh':
        return None
    if a.kind == 'L' or b.kind == 'L' or 'L[]' in (a.kind, b.kind) or (a.kind == b.kind == 'Litems' and len(a.sub) != len(b.sub)):
        # elements of a list of symbolic length are stored by value
        a, b = unfresh_sk(a), unfresh_sk(b)
    return _old_join(a, b)


V.join_skel = _join


def _strip_undef(sk):
    """structure of a conditionally defined value: drop Undef alternatives"""
    if sk.kind == 'Choice':
        subs = [x for x in sk.sub if not (x.kind == 'const' and x.extra is UNDEF)]
        if len(subs) == 1:
            return subs[0]
    return sk


def subst_skel(sk, pairs):
    return sk


def find_shape(sk, pref):
    """shape of the array skeleton reached by the leaf-name prefix"""
    k = sk.kind
    if k == 'Fresh':
        return find_shape(sk.sub[0], pref)
    if k == 'A':
        return sk.extra[0] if pref == '' else None
    if pref == '':
        return None
    if k == 'L' and pref.startswith('e.'):
        return find_shape(sk.sub[0], pref[2:])
    if k in ('tuple', 'Litems'):
        for i, x in enumerate(sk.sub):
            p = '%d.' % i
            if pref.startswith(p):
                return find_shape(x, pref[len(p):])
    if k == 'D':
        for kk, x in zip(sk.extra, sk.sub):
            p = '[%s].' % kk
            if pref.startswith(p):
                return find_shape(x, pref[len(p):])
    if k == 'Ob':
        for kk, x in zip(sk.extra[1], sk.sub):
            p = '.%s.' % kk
            if pref.startswith(p):
                return find_shape(x, pref[len(p):])
    if k == 'Choice':
        for i, x in enumerate(sk.sub):
            p = '%d~' % i
            if pref.startswith(p):
                return find_shape(x, pref[len(p):])
    return None


def _seg(rest):
    """first component of a leaf name"""
    if rest.startswith('['):
        return rest[:rest.index('].') + 2]
    if rest.startswith('.'):
        j = rest.index('.', 1)
        return rest[:j + 1]
    import re
    m = re.match(r'\d+[.~]', rest)
    if m:
        return m.group(0)
    return rest


def _default_leaf(sk, l, got):
    """leaf missing in a value because the value is an empty list: any value will do"""
    return None if not _inside_empty(l, got) else T.Z(_zero(l.sort)) if not isinstance(_zero(l.sort), bool) else _zero(l.sort)


def _inside_empty(l, got):
    # some prefix len leaf of the value is the constant 0
    import re
    for m in re.finditer(r'(?:^|\.)e\.', l.name):
        i = m.end() - 2
        g = got.get(l.name[:i] + 'len')
        if g is not None and not isz(g[1]) and g[1] == 0:
            return True
    return False


def _zero(sort):
    from fractions import Fraction
    if sort == z3.IntSort():
        return 0
    if sort == z3.RealSort():
        return Fraction(0)
    if sort == z3.BoolSort():
        return False
    return OBJ_NONE


def _same_val(a, b):
    try:
        if isinstance(a, (Ref, str)) or a is None:
            return a == b
        if is_num(a) and is_num(b) and not isinstance(a, F) and not isinstance(b, F):
            return T.same(a, b)
        if isinstance(a, F) and isinstance(b, F):
            return T.same(a.v, b.v) and T.same(a.nan, b.nan) and T.same(a.inf, b.inf)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(_same_val(x, y) for x, y in zip(a, b))
    except Exception:
        return False
    return False


def either(d, v, w):
    """v if d else w; objects of one class attribute by attribute"""
    if isinstance(v, OVal) and isinstance(w, OVal) and set(v.attrs) == set(w.attrs):
        return OVal(w.cls, {a: x if x is w.attrs[a] else either(d, x, w.attrs[a]) for a, x in v.attrs.items()})
    return mk_choice([(Z(d), v), (Z(bnot(d)), w)])


def _touched(s, nxt, m, S):
    return S.read(s, m) is not S.read(nxt, m)


def snap_copy(snap):
    return ({k: list(v) for k, v in snap[0].items()}, list(snap[1]), dict(snap[2]))


def teq(a, b):
    """equality of leaf terms"""
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        return T.beq(a, b)
    if T.same(a, b):
        return True
    za, zb = Z(a), Z(b)
    if za.sort() != zb.sort():
        za, zb = T.ZR(a), T.ZR(b)
    return za == zb


def _is01(d):
    if not isz(d):
        return d in (0, 1)
    if z3.is_app_of(d, z3.Z3_OP_ITE):
        return _is01(T.fold(d.arg(1))) and _is01(T.fold(d.arg(2)))
    return False


def _cond01(d):
    if not isz(d):
        return d == 1
    return ite(d.arg(0), _cond01(T.fold(d.arg(1))), _cond01(T.fold(d.arg(2))))


def delta(t, X):
    """t - X when t is X plus something free of X; None otherwise"""
    if isz(t) and t.eq(X):
        return 0
    if not isz(t):
        return None
    if not mentions_term(t, X):
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        if mentions_term(t.arg(0), X):
            return None
        a, b = delta(T.fold(t.arg(1)), X), delta(T.fold(t.arg(2)), X)
        if a is None or b is None:
            return None
        return ite(t.arg(0), a, b)
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        ch = t.children()
        w = [c for c in ch if mentions_term(c, X)]
        if len(w) != 1:
            return None
        d = delta(w[0], X)
        if d is None:
            return None
        rest = [c for c in ch if c is not w[0] and not c.eq(w[0])]
        if len(rest) != len(ch) - 1:
            return None
        add = T.radd if t.sort() == z3.RealSort() else iadd
        r = d
        for c in rest:
            r = add(r, T.fold(c)) if not (not isz(r) and r == 0) else T.fold(c)
        return r
    if z3.is_app_of(t, z3.Z3_OP_SUB) and t.num_args() == 2:
        if mentions_term(t.arg(1), X):
            return None
        d = delta(t.arg(0), X)
        if d is None:
            return None
        return (T.rsub if t.sort() == z3.RealSort() else isub)(d, T.fold(t.arg(1)))
    return None


def mentions_term(t, X):
    if not isz(t):
        return False
    seen = set()
    stack = [t]
    xi = X.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == xi:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


def times(init, d, j, sort):
    """init + d * j"""
    if isz(d) and z3.is_app_of(d, z3.Z3_OP_ITE):
        return ite(d.arg(0), times(init, T.fold(d.arg(1)), j, sort), times(init, T.fold(d.arg(2)), j, sort))
    if sort == z3.IntSort():
        return iadd(init, T.imul(d, j))
    return T.radd(init, T.rmul(d, z3.ToReal(Z(j)) if isz(j) else j))


def guard_norm(t, params, names):
    """where a guard says param == e, leaves read at e are read at param"""
    if not isz(t):
        return t

    def eqs(c, acc):
        if z3.is_and(c):
            for x in c.children():
                eqs(x, acc)
        elif z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            d = T.isimp(c.arg(0) - c.arg(1))
            for p in params:
                if isz(d) and mentions(d, p):
                    for sg in (1, -1):
                        e = T.isimp(p - (d if sg == 1 else -d))
                        if not isz(e) or not mentions(e, p):
                            acc.append((p, Z(e)))
                            break
        return acc

    memo = {}

    def go(x, env):
        key = (x.get_id(), tuple((p.get_id(), e.get_id()) for p, e in env))
        if key in memo:
            return memo[key][1]
        if x.num_args() == 0:
            r = x
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            e2 = env + tuple(eqs(c, []))
            r = T._reapp(x, [go(c, env), go(a, e2), go(b, env)])
        else:
            nc = [go(c, env) for c in x.children()]
            if env and x.decl().name() in names:
                out = []
                for a in nc[1:]:
                    for p, e in env:
                        if a.eq(e):
                            a = p
                            break
                    out.append(a)
                nc = [nc[0]] + out
            r = x if all(a.eq(b) for a, b in zip(nc, x.children())) else T._reapp(x, nc)
        memo[key] = (x, r)
        return r
    return T.fold(go(t, ()))


def disj(t, X):
    """d with t == X or d"""
    if not isz(t):
        return None
    if t.eq(X):
        return False
    if z3.is_or(t):
        w = [c for c in t.children() if mentions_term(c, X)]
        if len(w) == 1 and w[0].eq(X):
            return bor(*[T.fold(c) for c in t.children() if not c.eq(X)])
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if z3.is_true(a) and not mentions_term(c, X):
            d = disj(b, X)
            return None if d is None else bor(c, d)
        if b.eq(X) and not mentions_term(c, X):
            d = disj(a, X)
            return None if d is None else band(c, d)
    return None


def owner_offsets(t, p, k):
    """constants c such that t contains an equation p == k + c (syntactically linear)"""
    out = []
    seen = set()
    stack = [t] if isz(t) else []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            d = T.isimp(x.arg(0) - x.arg(1))
            if isz(d) and mentions(d, p) and mentions(d, k):
                # d = +-(p - k - c)
                for sgn in (1, -1):
                    c = T.isimp((p - k) - (d if sgn == 1 else -d))
                    if not isz(c) or (not mentions(c, p) and not mentions(c, k)):
                        if not any(T.same(c, y) for y in out):
                            out.append(c)
                        break
        stack.extend(x.children())
    return out


def simp_under(t, p, k, c, val):
    """replace every equation p == k+c in t by val"""
    def isit(x):
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            d = T.isimp((x.arg(0) - x.arg(1)))
            e = T.isimp(p - k - Z(c))
            if isz(d) and isz(e):
                return d.eq(e) or T.isimp(d + e) == 0 and not isz(T.isimp(d + e)) or (not isz(T.isimp(d - e)) and T.isimp(d - e) == 0)
        return False
    return replace_pred(t, isit, val)


def simp_at(t, p, n, val):
    e = T.isimp(p - Z(n))

    def isit(x):
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            d = T.isimp(x.arg(0) - x.arg(1))
            s, m = T.isimp(Z(d) + Z(e)), T.isimp(Z(d) - Z(e))
            return (not isz(s) and s == 0) or (not isz(m) and m == 0)
        return False
    return replace_pred(t, isit, val)


def replace_pred(t, isit, val):
    if not isz(t):
        return t
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if isit(x):
            r = z3.BoolVal(val)
        elif x.num_args() == 0:
            r = x
        else:
            nc = [go(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(nc, x.children())) else T._reapp(x, nc)
        memo[i] = r
        return r
    return T.fold(go(t))


def strip_guard(v, cond):
    """value appended, under the condition that something is appended"""
    if not isz(cond):
        return v
    c = Z(cond)

    def isit(x):
        return z3.is_bool(x) and x.eq(c)
    r = replace_pred(v, isit, True)
    return r


def drop_self(v, X, S, pc, l):
    """remove reads of the leaf itself that are unreachable under pc"""
    if not T.mentions_any(v, {l.decl.name()}):
        return v
    if isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if S.valid(pc, T.fold(c)):
            return drop_self(T.fold(a), X, S, pc, l)
        if S.valid(pc, bnot(T.fold(c))):
            return drop_self(T.fold(b), X, S, pc, l)
    if isz(v) and (z3.is_and(v) or z3.is_or(v)):
        unit = z3.is_and(v)
        keep = []
        for c in v.children():
            if T.mentions_any(c, {l.decl.name()}):
                keep.append(c)
                continue
            if S.valid(pc, T.fold(c)):
                if not unit:
                    return True
            elif S.valid(pc, bnot(T.fold(c))):
                if unit:
                    return False
            else:
                keep.append(c)
        if not any(T.mentions_any(c, {l.decl.name()}) for c in keep):
            return (z3.And if unit else z3.Or)(keep) if keep else unit
    return None
