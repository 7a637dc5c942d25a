"""Temporaries of a loop: names that every iteration assigns before reading and that nothing outside the loop reads."""
import ast

_memo = {}


def loads(e, bound=frozenset()):
    """names read by an expression (comprehension variables excluded)"""
    out = set()
    if e is None:
        return out
    if isinstance(e, ast.Name):
        if isinstance(e.ctx, ast.Load) and e.id not in bound:
            out.add(e.id)
        return out
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        b = set(bound)
        for g in e.generators:
            out |= loads(g.iter, frozenset(b))
            b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for c in g.ifs:
                out |= loads(c, frozenset(b))
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            out |= loads(x, frozenset(b))
        return out
    for c in ast.iter_child_nodes(e):
        out |= loads(c, bound)
    return out


TOP = None


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


class Reads:
    def __init__(self):
        self.live = set()

    def ex(self, e, a):
        self.live |= {x for x in loads(e) if a is not TOP and x not in a}

    def target(self, t, a):
        """names assigned by storing to t"""
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            r = set()
            for x in t.elts:
                r |= self.target(x, a)
            return r
        if isinstance(t, ast.Starred):
            return self.target(t.value, a)
        self.ex(t, a)
        return set()

    def block(self, ss, a):
        for s in ss:
            a = self.stmt(s, a)
        return a

    def stmt(self, s, a):
        if a is TOP:
            return TOP
        if isinstance(s, ast.Assign):
            self.ex(s.value, a)
            n = set()
            for t in s.targets:
                n |= self.target(t, a)
            return a | n
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return a
            self.ex(s.value, a)
            return a | self.target(s.target, a)
        if isinstance(s, ast.AugAssign):
            self.ex(s.value, a)
            if isinstance(s.target, ast.Name):
                if s.target.id not in a:
                    self.live.add(s.target.id)
            else:
                self.ex(s.target, a)
            return a
        if isinstance(s, ast.If):
            self.ex(s.test, a)
            return meet(self.block(s.body, a), self.block(s.orelse, a))
        if isinstance(s, ast.For):
            self.ex(s.iter, a)
            self.block(s.body, a | self.target(s.target, a))
            self.block(s.orelse, a)
            return a
        if isinstance(s, ast.While):
            self.ex(s.test, a)
            self.block(s.body, a)
            self.block(s.orelse, a)
            return a
        if isinstance(s, ast.With):
            for i in s.items:
                self.ex(i.context_expr, a)
                if i.optional_vars is not None:
                    a = a | self.target(i.optional_vars, a)
            return self.block(s.body, a)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.ex(c, a)
            return TOP
        if isinstance(s, (ast.Break, ast.Continue)):
            return TOP
        if isinstance(s, ast.Try):
            b = self.block(s.body, a)
            for h in s.handlers:
                b = meet(b, self.block(h.body, a | ({h.name} if h.name else set())))
            if b is not TOP:
                b = self.block(s.orelse, b)
            self.block(s.finalbody, a)
            return b
        if isinstance(s, (ast.Expr, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ex(c, a)
            return a
        # anything else: everything it mentions counts as read
        self.live |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        return a


def temporaries(fn, loop):
    key = (id(fn), id(loop))
    if key in _memo:
        return _memo[key][1]
    inside = {id(n) for n in ast.walk(loop)}
    stores, outside = set(), set()
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            if id(n) in inside and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            elif id(n) not in inside and isinstance(n.ctx, (ast.Load, ast.Del)):
                outside.add(n.id)
            elif isinstance(n.ctx, ast.Del):
                bad.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            bad |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
    r = Reads()
    if isinstance(loop, ast.For):
        r.block(loop.body, set(r.target(loop.target, set())))
    else:
        r.ex(loop.test, set())
        r.block(loop.body, set())
    res = frozenset(stores - outside - bad - r.live)
    _memo[key] = ((fn, loop), res)
    return res
