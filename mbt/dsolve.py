"""Runs state machines written as Dafny predicates (Next(s, s', l)): solves a predicate for its unknown arguments.

Unknowns are logic variables; a conjunction is a list of goals, each of which is evaluated as soon as what it needs is
known, binds an unknown (equations with an unknown, a field of one, or a constructor), or splits into alternatives.
What no equation determines is enumerated: `hint(v)` gives the candidates for a variable.
"""
import dfy
from rt import Missing, Undef


class Blocked(Exception):
    pass


class LV:
    __slots__ = ("name", "ty", "mod")

    def __init__(self, name, ty=None, mod=None):
        self.name, self.ty, self.mod = name, ty, mod

    def __repr__(self):
        return f"?{self.name}"


class St:
    """a constructor applied to terms"""
    __slots__ = ("k", "args")

    def __init__(self, k, args):
        self.k, self.args = k, args

    def __repr__(self):
        return f"{self.k.tag}{self.args}"


class Poison:
    def __init__(self, why):
        self.why = why

    def bad(self, *a):
        raise Undef(self.why)
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __len__ = __iter__ = __contains__ = __getitem__ = __add__ = __sub__ = __bool__ = bad

    def __getattr__(self, n):
        raise Undef(self.why)


ERR = (Undef, AttributeError, IndexError, KeyError, TypeError, ZeroDivisionError, RecursionError)


class Ctx:
    """where an expression stands"""

    def __init__(self, solver, mod, owner=None):
        self.solver, self.mod, self.owner = solver, mod, owner
        self.gen = dfy.Gen(solver.prog, mod, owner, False)


class Solver:
    def __init__(self, prog, hint=None):
        self.prog, self.hint = prog, hint
        self.ctxs = {}
        self.negs, self.nests = {}, {}
        self.root = None
        self.paths = {}
        self.code = {}
        self.keep = []
        self.depth = 0

    # -- substitutions
    def walk(self, t, sub):
        while t.__class__ is LV and t in sub:
            t = sub[t]
        return t

    def deep(self, t, sub):
        """the value of a term, or the term if it has none yet"""
        t = self.walk(t, sub)
        if t.__class__ is St:
            args = [self.deep(a, sub) for a in t.args]
            if all(a.__class__ is not LV and a.__class__ is not St for a in args):
                return t.k(*args)
            return St(t.k, args)
        return t

    def ground(self, t):
        return t.__class__ is not LV and t.__class__ is not St

    def struct(self, v, k, sub):
        """makes the unbound variable v a constructor term"""
        sub = dict(sub)
        tys = self.argtypes(v, k)
        t = St(k, [LV(n, ty, m) for n, (ty, m) in zip(k.fields_, tys)])
        sub[v] = t if k.pyf_ else k()
        return sub

    def argtypes(self, v, k):
        d = k.dt_
        tp = {}
        if v.ty is not None and v.ty[0] == "ty":
            names = [t if isinstance(t, str) else t[0] for t in d.tp]
            tp = dict(zip(names, v.ty[2]))
        out = []
        for ty in k.types_:
            if ty[0] == "ty" and len(ty[1]) == 1 and ty[1][0] in tp:
                out.append((tp[ty[1][0]], v.mod))
            else:
                out.append((self.subst(ty, tp), d.mod))
        return out

    def subst(self, ty, tp):
        if ty is None or ty[0] != "ty" or not tp:
            return ty
        if len(ty[1]) == 1 and ty[1][0] in tp:
            return tp[ty[1][0]]
        return ("ty", ty[1], [self.subst(x, tp) for x in ty[2]])

    def typeof(self, v):
        if v.ty is None:
            return None
        r = self.prog.resolve_type(v.ty, v.mod)
        return r if isinstance(r, dfy.DT) else None

    def unify(self, a, b, sub):
        """the substitution that makes them equal, or None"""
        a, b = self.walk(a, sub), self.walk(b, sub)
        if a is b:
            return sub
        if a.__class__ is LV:
            sub = dict(sub)
            sub[a] = b
            return sub
        if b.__class__ is LV:
            return self.unify(b, a, sub)
        if a.__class__ is not St and b.__class__ is not St:
            return sub if a == b else None
        if a.__class__ is not St:
            a, b = b, a
        if b.__class__ is St:
            if a.k.tag != b.k.tag or len(a.args) != len(b.args):
                return None
            bs = b.args
        else:
            if not isinstance(b, dfy.Data) or b.tag != a.k.tag:
                return None
            bs = b.args_()
        for x, y in zip(a.args, bs):
            sub = self.unify(x, y, sub)
            if sub is None:
                return None
        return sub

    # -- evaluation
    def ctx(self, mod, owner=None):
        c = self.ctxs.get((mod, owner))
        if c is None:
            c = self.ctxs[(mod, owner)] = Ctx(self, mod, owner)
        return c

    def split(self, e, env, c):
        """e with the field paths from its variables replaced by variables, and those paths"""
        key = (id(e), c.mod, frozenset(env))
        r = self.paths.get(key)
        if r is not None:
            return r
        self.keep.append(e)
        paths = []

        def path(x):
            while x[0] == "field":
                x = x[1]
            return x[0] == "id" and x[1] in env and x[1] not in bound

        bound = set()

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] in ("id", "field") and path(x):
                    # a member function is not a field
                    y, tail = x, []
                    while y[0] == "field" and y[2] in self.prog.memberinfo and y[2] not in self.prog.fieldinfo:
                        tail.append(y[2])
                        y = y[1]
                    for i, p in enumerate(paths):
                        if p == y:
                            break
                    else:
                        i = len(paths)
                        paths.append(y)
                    z = ("id", f"z{i}__")
                    for n in reversed(tail):
                        z = ("field", z, n)
                    return z
                if x and x[0] in ("quant", "setc", "mapc", "lam", "let", "letst", "match", "seqc"):
                    names = binders(x)
                    new = names - bound
                    bound.update(new)
                    try:
                        return tuple(go(y) for y in x)
                    finally:
                        bound.difference_update(new)
                return tuple(go(y) for y in x)
            if isinstance(x, list):
                return [go(y) for y in x]
            return x
        e2 = go(e)
        names = [f"z{i}__" for i in range(len(paths))]
        r = self.paths[key] = (e2, paths, names)
        return r

    def value(self, e, env, c, sub):
        """the value of e; Blocked if it depends on what is not known"""
        e2, paths, names = self.split(e, env, c)
        vals = []
        for p in paths:
            try:
                t = self.deep(self.path(p, env, c, sub), sub)
            except ERR as x:
                t = Poison(str(x))
            if not self.ground(t):
                raise Blocked(p)
            vals.append(t)
        f = self.code.get(id(e2))
        if f is None:
            env2 = {n: (n, False) for n in names}
            src = f"lambda {', '.join(names)}: " + c.gen.ex(e2, env2)
            f = self.code[id(e2)] = eval(compile(src, "<dsolve>", "eval"), self.prog.g)
            self.keep.append(e2)
        return f(*vals)

    def path(self, e, env, c, sub):
        if e[0] == "id":
            return self.walk(env[e[1]], sub)
        b = self.walk(self.path(e[1], env, c, sub), sub)
        n = e[2]
        if b.__class__ is LV:
            raise Blocked(e)
        if n.isdigit():
            return b[int(n)]
        if n.endswith("?") and len(n) > 1:
            return (b.k.tag if b.__class__ is St else b.tag) == n[:-1]
        if b.__class__ is St:
            if n not in b.k.fields_:
                raise Undef(f"{b.k.tag} has no field {n}")
            return self.walk(b.args[b.k.fields_.index(n)], sub)
        return getattr(b, "f_" + dfy.mangle(n))

    def lval(self, e, env, c, sub):
        """the term a path denotes, making its unknown parents constructor terms if there is but one; (term, sub)"""
        if e[0] == "id" and e[1] in env:
            return self.walk(env[e[1]], sub), sub
        if e[0] == "field":
            b, sub = self.lval(e[1], env, c, sub)
            n = e[2]
            if b.__class__ is LV:
                d = self.typeof(b)
                ks = [k for k in d.ctors.values() if n in k.fields_] if d is not None else []
                if len(ks) != 1:
                    raise Blocked(e)
                sub = self.struct(b, ks[0], sub)
                b = sub[b]
            if b.__class__ is St:
                if n not in b.k.fields_:
                    raise Undef(f"{b.k.tag} has no field {n}")
                return self.walk(b.args[b.k.fields_.index(n)], sub), sub
            return getattr(b, "f_" + dfy.mangle(n)), sub
        raise Blocked(e)

    def term(self, e, env, c, sub):
        """(the term of an expression, sub)"""
        try:
            return self.value(e, env, c, sub), sub
        except Blocked:
            pass
        k = e[0]
        if k in ("id", "field"):
            return self.lval(e, env, c, sub)
        if k == "stmtexpr":
            return self.term(e[2], env, c, sub)
        if k == "as":
            return self.term(e[1], env, c, sub)
        if k == "dupd":
            b, sub = self.term(e[1], env, c, sub)
            b = self.walk(b, sub)
            if b.__class__ is LV:
                raise Blocked(e)
            kk = b.k if b.__class__ is St else b.__class__
            args = list(b.args if b.__class__ is St else b.args_())
            for n, x in e[2]:
                args[kk.fields_.index(n)], sub = self.term(x, env, c, sub)
            return St(kk, args), sub
        if k == "call":
            fn = c.gen.callee(e[1], {n: (n, False) for n in env})
            if isinstance(fn, dfy.CtorRef):
                args = [None] * len(fn.k.fields_)
                for i, a in enumerate(e[2]):
                    if a[0] == "named":
                        args[fn.k.fields_.index(a[1])], sub = self.term(a[2], env, c, sub)
                    else:
                        args[i], sub = self.term(a, env, c, sub)
                return St(fn.k, args), sub
            if isinstance(fn, dfy.Fn) and fn.static and fn.body is not None and fn.body[0] != "block":
                env2 = {}
                for p, a in zip(fn.params, e[2]):
                    env2[p[0]], sub = self.term(a, env, c, sub)
                return self.term(fn.body, env2, self.ctx(fn.mod), sub)
        if k == "if":
            return self.term(e[2] if self.value(e[1], env, c, sub) else e[3], env, c, sub)
        if k == "let":
            env2 = dict(env)
            for pt, x in zip(e[1], e[2]):
                if pt[0] == "ptyped":
                    pt = pt[1]
                if pt[0] != "pid":
                    raise Blocked(e)
                env2[pt[1][0]], sub = self.term(x, env, c, sub)
            return self.term(e[3], env2, c, sub)
        raise Blocked(e)

    # -- goals
    def solve(self, fn, args, sub=None):
        """yields the substitutions under which the predicate holds"""
        env = dict(zip((p[0] for p in fn.params), args))
        yield from self.run([(fn.body, env, self.ctx(fn.mod))], sub or {})

    def run(self, goals, sub):
        while True:
            choice = weak = None
            progress = undef = False
            i = 0
            while i < len(goals):
                g = goals[i]
                try:
                    r = self.step(g, sub)
                except Blocked:
                    i += 1
                    continue
                except ERR:
                    if i == 0:
                        return          # undefined: never enabled
                    undef = True
                    i += 1
                    continue
                kind, alts = r
                if kind == "weak":
                    if weak is None:
                        weak = (i, alts)
                    i += 1
                    continue
                if not alts:
                    return
                if len(alts) == 1:
                    new, sub = alts[0]
                    goals = goals[:i] + new + goals[i + 1:]
                    progress = True
                    continue
                if choice is None:
                    choice = (i, alts)
                i += 1
            if not goals:
                yield sub
                return
            if progress:
                continue
            if choice is None:
                v = self.pick(goals, sub)
                if v is not None:
                    for x in v[1]:
                        s2 = dict(sub)
                        s2[v[0]] = x
                        yield from self.run(goals, s2)
                    return
                choice = weak
            if choice is None and undef:
                return
            if choice is None:
                raise Missing(f"cannot solve {[g[0] for g in goals]!r}"[:600])
            i, alts = choice
            for new, s2 in alts:
                yield from self.run(goals[:i] + new + goals[i + 1:], s2)
            return

    def unknowns(self, t, sub, out):
        t = self.walk(t, sub)
        if t.__class__ is LV:
            if t not in out:
                out.append(t)
        elif t.__class__ is St:
            for a in t.args:
                self.unknowns(a, sub, out)

    def pick(self, goals, sub):
        """an unknown to enumerate"""
        vs = []
        for e, env, c in goals:
            for n in dfy.fv(e):
                if n in env:
                    self.unknowns(env[n], sub, vs)
        best = None
        for v in vs:
            h = self.hint(v) if self.hint else None
            if h is None:
                d = self.typeof(v)
                if d is not None and all(not k.pyf_ for k in d.ctors.values()):
                    h = [k() for k in d.ctors.values()]
                elif v.ty == ("ty", ["bool"], []):
                    h = [False, True]
            if h is not None and (best is None or len(h) < len(best[1])):
                best = (v, h)
        return best

    def conj(self, e):
        if e[0] == "bin" and e[1] == "&&":
            return self.conj(e[2]) + self.conj(e[3])
        if e[0] == "stmtexpr":
            return self.conj(e[2])
        return [e]

    def step(self, g, sub):
        e, env, c = g
        try:
            return "", ([([], sub)] if self.value(e, env, c, sub) else [])
        except Blocked:
            pass
        k = e[0]
        if k == "stmtexpr":
            return "", [([(e[2], env, c)], sub)]
        if k == "bin":
            op = e[1]
            if op == "&&":
                return "", [([(x, env, c) for x in self.conj(e)], sub)]
            if op == "||":
                alts = []
                for x in self.conjd(e):
                    try:
                        if self.value(x, env, c, sub):
                            return "", [([], sub)]
                    except Blocked:
                        alts.append(([(x, env, c)], sub))
                    except ERR:
                        pass
                return "", alts
            if op == "==>":
                try:
                    return "", [([(e[3], env, c)] if self.value(e[2], env, c, sub) else [], sub)]
                except Blocked:
                    return "weak", [([(self.neg(e[2]), env, c)], sub), ([(e[2], env, c), (e[3], env, c)], sub)]
            if op == "==":
                return self.equal(e[2], e[3], env, c, sub)
            if op == "<==>":
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    try:
                        v = self.value(a, env, c, sub)
                    except Blocked:
                        continue
                    return "", [([(b if v else self.neg(b), env, c)], sub)]
                return "weak", [([(e[2], env, c), (e[3], env, c)], sub), ([(self.neg(e[2]), env, c), (self.neg(e[3]), env, c)], sub)]
        if k == "un" and e[1] == "!":
            x = e[2]
            if x[0] == "un" and x[1] == "!":
                return "", [([(x[2], env, c)], sub)]
            if x[0] == "field" and x[2].endswith("?"):
                b, s2 = self.lval(x[1], env, c, sub)
                b = self.walk(b, s2)
                if b.__class__ is LV:
                    d = self.typeof(b)
                    if d is not None:
                        return self.ctors(b, [q for q in d.ctors.values() if q.tag != x[2][:-1]], s2)
            if x[0] == "bin" and x[1] == "&&":
                return "weak", [([(self.neg(x[2]), env, c)], sub), ([(x[2], env, c), (self.neg(x[3]), env, c)], sub)]
            if x[0] == "bin" and x[1] == "||":
                return "", [([(self.neg(x[2]), env, c), (self.neg(x[3]), env, c)], sub)]
            raise Blocked(e)
        if k == "chain":
            return "", [([(x, env, c) for x in self.links(e)], sub)]
        if k == "field" and e[2].endswith("?"):
            b, s2 = self.lval(e[1], env, c, sub)
            b = self.walk(b, s2)
            if b.__class__ is LV:
                d = self.typeof(b)
                if d is None:
                    raise Blocked(e)
                return self.ctors(b, [d.ctors[e[2][:-1]]], s2)
            raise Blocked(e)
        if k == "if":
            try:
                return "", [([(e[2] if self.value(e[1], env, c, sub) else e[3], env, c)], sub)]
            except Blocked:
                return "weak", [([(e[1], env, c), (e[2], env, c)], sub), ([(self.neg(e[1]), env, c), (e[3], env, c)], sub)]
        if k == "let":
            env2 = dict(env)
            for pt, x in zip(e[1], e[2]):
                if pt[0] == "ptyped":
                    pt = pt[1]
                if pt[0] == "pid":
                    env2[pt[1][0]], sub = self.term(x, env, c, sub)
                else:
                    v = self.value(x, env, c, sub)
                    b = {}
                    if not self.match(pt, v, b, sub):
                        return "", []
                    env2.update(b)
            return "", [([(e[3], env2, c)], sub)]
        if k == "call":
            fn = c.gen.callee(e[1], {n: (n, False) for n in env})
            if isinstance(fn, dfy.Fn) and fn.static and fn.body is not None and fn.body[0] != "block":
                env2 = {}
                for p, a in zip(fn.params, e[2]):
                    env2[p[0]], sub = self.arg(a, p, fn, env, c, sub)
                return "", [([(fn.body, env2, self.ctx(fn.mod))], sub)]
            raise Blocked(e)
        if k == "match":
            t, s2 = self.term(e[1], env, c, sub)
            t = self.walk(t, s2)
            if t.__class__ is LV:
                d = self.typeof(t)
                if d is None:
                    raise Blocked(e)
                return self.ctors(t, list(d.ctors.values()), s2, [(e, env, c)])
            for pt, b in e[2]:
                m = {}
                if self.match(pt, t, m, s2):
                    env2 = dict(env)
                    env2.update(m)
                    return "", [([(b, env2, c)], s2)]
            return "", []
        if k == "quant" and e[1] == "exists":
            env2 = dict(env)
            b = e[4] if e[3] is None else ("bin", "&&", e[3], e[4])
            for n, ty in e[2]:
                env2[n] = v = LV(n, ty, c.mod)
                if ty is None and isindex(n, b):
                    raise Blocked(e)
            return "", [([(x, env2, c) for x in self.conj(b)], sub)]
        if k == "quant":
            return self.forall(e, env, c, sub)
        raise Blocked(e)

    def ctors(self, v, ks, sub, again=()):
        return "", [(list(again), self.struct(v, q, sub)) for q in ks]

    def conjd(self, e):
        if e[0] == "bin" and e[1] == "||":
            return self.conjd(e[2]) + self.conjd(e[3])
        return [e]

    def arg(self, a, p, fn, env, c, sub):
        try:
            t, sub = self.term(a, env, c, sub)
        except Blocked:
            raise
        t = self.walk(t, sub)
        if t.__class__ is LV and t.ty is None and p[1] is not None:
            t.ty, t.mod = p[1], fn.mod
        return t, sub

    def match(self, pt, t, b, sub):
        if pt[0] == "ptyped":
            pt = pt[1]
        if pt[0] == "pwild":
            return True
        t = self.walk(t, sub)
        if pt[0] == "plit":
            return self.value(pt[1], {}, self.ctx(self.root), sub) == t
        tag = t.k.tag if t.__class__ is St else getattr(t, "tag", None)
        if pt[0] == "pid":
            n = pt[1][-1]
            if len(pt[1]) > 1 or n[0].isupper():
                return tag == n
            if n != "_":
                b[n] = t
            return True
        if pt[0] == "pctor":
            if tag != (pt[1][-1] if isinstance(pt[1], (list, tuple)) else pt[1]):
                return False
            args = t.args if t.__class__ is St else t.args_()
            return all(self.match(q, x, b, sub) for q, x in zip(pt[2], args))
        if pt[0] == "ptuple":
            return all(self.match(q, x, b, sub) for q, x in zip(pt[1], t))
        raise Missing(f"pattern {pt}")

    def equal(self, a, b, env, c, sub):
        vals = []
        for x, y in ((a, b), (b, a)):
            try:
                v = self.value(x, env, c, sub)
            except Blocked:
                continue
            if y[0] == "bin" and y[1] == "+" and isinstance(v, tuple):
                try:
                    p, s2 = self.term(y[2], env, c, sub)
                    p = self.deep(p, s2)
                    if isinstance(p, tuple):
                        if v[:len(p)] != p:
                            return "", []
                        t, s2 = self.term(y[3], env, c, s2)
                        return "", self.un(t, v[len(p):], s2)
                    t, s2 = self.term(y[3], env, c, s2)
                    t = self.deep(t, s2)
                    if isinstance(t, tuple):
                        n = len(v) - len(t)
                        if n < 0 or v[n:] != t:
                            return "", []
                        return "", self.un(p, v[:n], s2)
                except Blocked:
                    pass
                raise Blocked(y)
            if y[0] == "index":
                break
        t, sub = self.term(a, env, c, sub)
        u, sub = self.term(b, env, c, sub)
        return "", self.un(t, u, sub)

    def un(self, a, b, sub):
        s = self.unify(a, b, sub)
        return [] if s is None else [([], s)]

    def forall(self, e, env, c, sub):
        _, q, vs, r, b = e
        conds = self.conj(r) if r is not None else []
        body = b
        while body[0] == "bin" and body[1] == "==>":
            conds += self.conj(body[2])
            body = body[3]
        names = [n for n, _ in vs]
        rows = [dict()]
        for n, ty in vs:
            dom = None
            for x in conds:
                if x[0] == "bin" and x[1] == "in" and x[2] == ("id", n):
                    dom = lambda row, x=x: list(self.value(x[3], {**env, **row}, c, sub))
                    break
            if dom is None:
                try:
                    d = self.prog.domain(ty if ty is not None else ("ty", ["?" + n], []), c.mod)
                except Missing:
                    raise Blocked(e)
                dom = lambda row, d=d: list(d)
            rows = [{**row, n: v} for row in rows for v in dom(row)]
        goals = []
        for row in rows:
            env2 = {**env, **row}
            goals.append((self.nest(e, conds, body), env2, c))
        return "", [(goals, sub)]

    def neg(self, e):
        """!e, one object for each e (the caches go by identity)"""
        r = self.negs.get(id(e))
        if r is None:
            r = self.negs[id(e)] = (("un", "!", e), e)
        return r[0]

    def links(self, e):
        r = self.nests.get(id(e))
        if r is None:
            r = self.nests[id(e)] = ([("bin", op, e[2][i], e[2][i + 1]) for i, op in enumerate(e[1])], e)
        return r[0]

    def nest(self, e, conds, body):
        r = self.nests.get(id(e))
        if r is None:
            r = self.nests[id(e)] = (self.nest1(conds, body), e)
        return r[0]

    def nest1(self, conds, body):
        x = body
        for cond in reversed(conds):
            x = ("bin", "==>", cond, x)
        self.keep.append(x)
        return x


def isindex(n, x):
    """is the variable an index?"""
    if isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] == "index" and x[2] == ("id", n):
            return True
        return any(isindex(n, y) for y in x)
    return False


def binders(x):
    out = set()
    k = x[0]
    if k in ("quant", "setc", "mapc"):
        out |= {n for n, _ in x[2]}
    elif k == "lam":
        out |= {n for n, _ in x[1]}
    elif k == "let":
        for p in x[1]:
            out |= set(dfy.pvars(p))
    elif k == "letst":
        for p in x[1] if isinstance(x[1], list) else [x[1]]:
            try:
                out |= set(dfy.pvars(p))
            except Exception:
                pass
    elif k == "match":
        for p, _ in x[2]:
            out |= set(dfy.pvars(p))
    return out
