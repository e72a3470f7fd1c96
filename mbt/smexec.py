"""Executes state machines defined in the sources: enumerates the successors of a state by solving a transition's
requirements for its parameters.  Parameters are determined by unification where the code defines them (equalities, nested
`next` relations) and otherwise drawn from hints supplied by the harness or from the universe of their type."""
import itertools

from rt import Arb, Data, FMap, FSet, LVar, MSet, Missing, Seq, TypeDef, Unbound, Undef
import verus_eval
from verus_eval import Builtin, FnDecl, Gen, Alias, free, pat_vars

_slot = itertools.count()
DEBUG = False


class Fail(Exception):
    pass


DEFER = object()        # returned by a hint: ask again once the other parameters are known


def ground(v):
    if isinstance(v, LVar):
        return False
    if isinstance(v, Data):
        try:
            return v._gr
        except AttributeError:
            pass
        for s in v._slots:
            x = getattr(v, s)
            if (x.__class__ is tuple or isinstance(x, (LVar, Data))) and not ground(x):
                return False
        v._gr = True
        return True
    if type(v) is tuple:
        return all(ground(x) for x in v)
    return True


def subst(v, m):
    if isinstance(v, LVar):
        r = m.get(id(v))
        return v if r is None else r[1]
    if isinstance(v, Data):
        if ground(v):
            return v
        return type(v)(*[subst(getattr(v, s), m) for s in v._slots])
    if type(v) is tuple:
        return tuple(subst(x, m) for x in v)
    return v


def unify(a, b, m):
    """Extends binding m (id -> (lvar, value)) so that a and b agree; False when impossible.  At most one side non-ground."""
    if isinstance(a, LVar):
        if id(a) in m:
            return unify(m[id(a)][1], b, m)
        m[id(a)] = (a, b)
        return True
    if isinstance(b, LVar):
        return unify(b, a, m)
    if isinstance(a, Data) and isinstance(b, Data):
        if type(a) is not type(b):
            return False
        if ground(a) and ground(b):
            return a == b
        return all(unify(getattr(a, s), getattr(b, s), m) for s in a._slots)
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(unify(x, y, m) for x, y in zip(a, b))
    return a == b


class Env:
    __slots__ = ("vals", "ng", "types")

    def __init__(self, vals=None, ng=(), types=None):
        self.vals = vals if vals is not None else {}
        self.ng = set(ng)
        self.types = types if types is not None else {}

    def copy(self):
        return Env(dict(self.vals), self.ng, self.types)

    def set(self, slot, v):
        self.vals[slot] = v
        if not ground(v):
            self.ng.add(slot)

    def bind(self, m):
        e = self.copy()
        for s in list(e.ng):
            v = subst(e.vals[s], m)
            # bindings may contain LVars bound later in m
            k = 0
            while not ground(v) and k < 8:
                w = subst(v, m)
                if w is v:
                    break
                v = w
                k += 1
            e.vals[s] = v
            if ground(v):
                e.ng.discard(s)
        return e


class Goal:
    __slots__ = ("kind", "a", "names", "scope")

    def __init__(self, kind, a, names, scope):
        self.kind, self.a, self.names, self.scope = kind, a, names, scope


class Solver:
    def __init__(self, crate, hint=None, limit=None):
        self.c = crate
        self.hint = hint
        self.cache = {}
        self.stypes = {}

    # -- evaluation of an AST under an environment
    def ev(self, ast, names, scope, env):
        key = id(ast)
        ent = self.c.__dict__.setdefault("_evcache", {}).get(key)
        if ent is None or ent[0] is not ast:
            fv = sorted(n for n in free(ast) if n in names)
            g = Gen(self.c, scope)
            envm = {n: f"a{i}" for i, n in enumerate(fv)}
            for i, n in enumerate(fv):
                if names[n] in self.stypes:
                    g.types[f"a{i}"] = self.stypes[names[n]]
            lines = []
            e = g.expr(ast, envm, lines)
            lines.append(f"return {e}")
            fn = self.c.make("goal", [f"a{i}" for i in range(len(fv))], lines)
            ent = (ast, fv, fn)
            self.c._evcache[key] = ent
        _, fv, fn = ent
        return fn(*[env.vals[names[n]] for n in fv])

    def has_lvar(self, ast, names, env):
        return any(n in names and names[n] in env.ng for n in free(ast))

    def match(self, pat, v, names, scope, env, lv_ok=True):
        """Match value v; returns [(env, names)] alternatives (empty: no match)."""
        k = pat[0]
        if k in ("pwild", "prest"):
            return [(env, names)]
        if k == "pbind":
            s = next(_slot)
            e = env.copy()
            e.set(s, v)
            n = dict(names)
            n[pat[1]] = s
            return [(e, n)]
        if k == "por":
            out = []
            for p in pat[1]:
                out += self.match(p, v, names, scope, env)
                if out and not isinstance(v, LVar):
                    break
            return out
        if k == "plit":
            if isinstance(v, LVar):
                m = {}
                unify(v, pat[1], m)
                return [(env.bind(m), names)]
            return [(env, names)] if v == pat[1] else []
        if k == "pat":
            return [x for e, n in self.match(("pbind", pat[1]), v, names, scope, env) for x in self.match(pat[2], v, n, scope, e)]
        if k == "ptuple":
            if isinstance(v, LVar):
                raise Unbound()
            alts = [(env, names)]
            for i, p in enumerate(pat[1]):
                alts = [y for e, n in alts for y in self.match(p, verus_eval.r_tup(v, i), n, scope, e)]
            return alts
        r = self.c.resolve(pat[1], scope)
        if isinstance(r, Alias):
            r = self.c.resolve_type(r.ty, r.scope)
        if isinstance(r, TypeDef):
            vn = next(iter(r.variants))
            cls = r.variants[vn]
        elif isinstance(r, tuple) and r[0] == "variant":
            cls = r[1].variants[r[2]]
        else:
            raise Missing(f"pattern {pat[1]}")
        if isinstance(v, LVar):
            fresh = cls(*[LVar(t) for _, t in cls._type.vfields[cls._variant]])
            m = {id(v): (v, fresh)}
            env = env.bind(m)
            v = fresh
        if isinstance(v, Arb):
            raise Undef("match")
        if type(v) is not cls:
            if isinstance(v, Data) and v._variant == cls._variant and v._type.name == cls._type.name:
                pass
            else:
                return []
        alts = [(env, names, v)]
        if k == "pctor":
            subs = [(cls._fields[i], p) for i, p in enumerate(pat[2] or []) if p[0] != "prest"]
        else:
            subs = pat[2]
        alts = [(env, names)]
        s = next(_slot)
        env.set(s, v)
        for f, p in subs:
            nxt = []
            for e, n in alts:
                if s not in e.vals:
                    e.set(s, v)
                cur = e.vals[s]
                nxt += self.match(p, getattr(cur, verus_eval.mangle(f)), n, scope, e)
            alts = nxt
        return alts

    # -- solving
    def solve(self, goals, env, enum):
        """Yields environments in which all goals hold.  enum(env) -> None or list of environments (binding one more)."""
        stack = [(list(goals), env)]
        while stack:
            goals, env = stack.pop()
            progress = True
            failed = False
            branched = False
            while progress and goals and not failed and not branched:
                progress = False
                delayed = []
                i = 0
                while i < len(goals):
                    g = goals[i]
                    i += 1
                    try:
                        r = self.step(g, env)
                    except Unbound:
                        delayed.append(g)
                        continue
                    except Undef:
                        failed = True
                        break
                    if r is True:
                        progress = True
                        continue
                    if r is False:
                        failed = True
                        break
                    # alternatives
                    progress = True
                    rest = goals[i:]
                    if len(r) == 1:
                        env, new = r[0]
                        goals = delayed + new + rest
                        delayed = []
                        i = 0
                        continue
                    for e2, new in reversed(r):
                        stack.append((delayed + new + rest, e2))
                    branched = True
                    break
                if not failed and not branched:
                    goals = delayed
            if failed or branched:
                continue
            if DEBUG and goals:
                print('stuck', [str(g.a)[:200] for g in goals])
            alts = enum(env, goals)
            if alts is None:
                if goals:
                    raise Missing("unsolved goal: " + repr(goals[0].a)[:300])
                yield env
            else:
                for e2 in reversed(alts):
                    stack.append((goals, e2))

    def step(self, g, env):
        k = g.kind
        c = self.c
        if k == "e":
            return self.goal_expr(g.a, g.names, g.scope, env)
        if k == "lets":
            # sequence of statements whose names scope over the rest
            stmts = g.a
            if not stmts:
                return True
            s, rest = stmts[0], stmts[1:]
            kind = s[0]
            if kind == "require":
                return [(env, [Goal("e", s[1], g.names, g.scope)] + ([Goal("lets", rest, g.names, g.scope)] if rest else []))]
            if kind == "requirelet":
                v = self.ev(s[2], g.names, g.scope, env)
                alts = self.match(s[1], v, g.names, g.scope, env)
                return self.alts(alts, rest, g)
            if kind == "let":
                v = self.ev_lazy(s[3], g.names, g.scope, env)
                alts = self.match(s[1], v, g.names, g.scope, env)
                return self.alts(alts, rest, g)
            if kind == "if":
                cond = self.ev(s[1], g.names, g.scope, env)
                return [(env, [Goal("lets", (s[2] if cond else s[3]) + rest, g.names, g.scope)])]
            if kind == "match":
                v = self.ev(s[1], g.names, g.scope, env)
                if isinstance(v, LVar):
                    raise Unbound()
                for pat, guard, body in s[2]:
                    alts = self.match(pat, v, g.names, g.scope, env)
                    for e2, n2 in alts:
                        if guard is not None and not self.ev(guard, n2, g.scope, e2):
                            continue
                        return [(e2, [Goal("lets", body + rest, n2, g.scope)])]
                return False
            if kind in ("update", "init"):
                e = env.copy()
                e.vals["#upd"] = e.vals["#upd"] + ((s, g.names, g.scope),)
                return [(e, [Goal("lets", rest, g.names, g.scope)] if rest else [])]
            if kind == "special":
                return self.special(s, rest, g, env)
            raise Missing(f"statement {kind}")
        raise Missing(k)

    def ev_lazy(self, ast, names, scope, env):
        return self.ev(ast, names, scope, env)

    def alts(self, alts, rest, g):
        if not alts:
            return False
        return [(e, [Goal("lets", rest, n, g.scope)] if rest else []) for e, n in alts]

    def goal_expr(self, a, names, scope, env):
        k = a[0]
        if k == "and":
            if any(x[0] == "matches" and pat_vars(x[2]) for x in a[1]):
                if not self.has_lvar(a, names, env):
                    return bool(self.ev(a, names, scope, env))
            return [(env, [Goal("e", x, names, scope) for x in a[1]])]
        if k == "call":
            f = self.callee(a, names, scope)
            if isinstance(f, tuple) and f[0] == "smrel":
                return self.rel(f[1], f[2], a[2], names, scope, env)
        try:
            return bool(self.ev(a, names, scope, env))
        except Unbound:
            pass
        if k == "cmp" and len(a[1]) == 3 and a[1][1] in ("==", "=~=", "===", "=~~="):
            l, r = a[1][0], a[1][2]
            try:
                rv = self.ev(r, names, scope, env)
                rg = ground(rv)
            except Unbound:
                rg = None
            try:
                lv = self.ev(l, names, scope, env)
                lg = ground(lv)
            except Unbound:
                lg = None
            if lg is None or rg is None:
                raise Unbound()
            if lg or rg or isinstance(lv, (LVar, Data)):
                m = {}
                if not unify(lv, rv, m):
                    return False
                return [(env.bind(m), [])]
            raise Unbound()
        if k == "block":
            stmts = [("let", p, t, e) for p, t, e in a[1] if e is not None]
            return [(env, [Goal("lets", stmts + [("require", a[2])], names, scope)])]
        if k == "if":
            c = self.ev(a[1], names, scope, env)
            return [(env, [Goal("e", a[2] if c else a[3], names, scope)])]
        if k == "match":
            v = self.ev(a[1], names, scope, env)
            if isinstance(v, LVar):
                raise Unbound()
            for pat, guard, body in a[2]:
                for e2, n2 in self.match(pat, v, names, scope, env):
                    if guard is not None and not self.ev(guard, n2, scope, e2):
                        continue
                    return [(e2, [Goal("e", body, n2, scope)])]
            return False
        if k == "is":
            v = self.ev(a[1], names, scope, env)
            if isinstance(v, LVar) and v.ty is not None:
                t = self.c.resolve_type(v.ty, scope) if isinstance(v.ty, tuple) else v.ty
                if isinstance(t, TypeDef) and a[2][-1] in t.variants:
                    cls = t.variants[a[2][-1]]
                    fresh = cls(*[LVar(self.scoped(ft, t)) for _, ft in t.vfields[a[2][-1]]])
                    return [(env.bind({id(v): (v, fresh)}), [])]
            raise Unbound()
        if k == "quant" and a[1] == "exists":
            e2, n2 = env.copy(), dict(names)
            for pat, ty in a[2]:
                s = next(_slot)
                e2.set(s, LVar(ty))
                n2[pat[1]] = s
            return [(e2, [Goal("e", a[3], n2, scope)])]
        if k == "call":
            f = self.callee(a, names, scope)
            if isinstance(f, FnDecl) and f.body is not None and f.mode == "spec":
                return self.inline(f, a[2], names, scope, env)
        if k == "mcall":
            v = self.ev(a[1], names, scope, env)
            if isinstance(v, LVar):
                if a[2] == "is_empty" and v.val is None and isinstance(v.ty, tuple) and v.ty[0] == "ty" and v.ty[1][-1] in ("Set", "ISet"):
                    return [(env.bind({id(v): (v, FSet(()))}), [])]
                raise Unbound()
            if isinstance(v, Data):
                f = v._type.fns.get(a[2])
                if isinstance(f, FnDecl) and f.body is not None and f.mode == "spec":
                    return self.inline(f, [("value", v)] + a[4], names, scope, env)
        raise Unbound()

    def scoped(self, ty, t):
        r = self.c.resolve_type(ty, t.scope) if t.scope is not None and ty[0] == "ty" else None
        return r if isinstance(r, TypeDef) else ty

    def callee(self, a, names, scope):
        if a[1][0] == "path" and not (len(a[1][1]) == 1 and a[1][1][0] in names):
            return self.c.resolve(a[1][1], scope)
        return None

    def inline(self, f, args, names, scope, env):
        e2, n2 = env.copy(), {}
        for (pat, ty), x in zip(f.params, args):
            v = x[1] if x[0] == "value" else self.ev(x, names, scope, env)
            if isinstance(v, LVar) and v.ty is None:
                object.__setattr__(v, "ty", self.scoped(ty, f) if False else ty)
            s = next(_slot)
            e2.set(s, v)
            if pat[0] == "pbind":
                n2[pat[1]] = s
                self.stypes[s] = ty
        return [(e2, [Goal("e", f.body, n2, f.scope)])]

    def rel(self, sm, rel, args, names, scope, env):
        vals = []
        for x in args:
            vals.append(self.ev(x, names, scope, env))
        c = self.c
        if rel == "next":
            pre, post, lbl = vals if len(vals) == 3 else (vals[0], vals[1], None)
            if not ground(pre):
                raise Unbound()
            out = []
            seen = set()
            for l2, step, p2 in memo_successors(c, sm, pre, lbl, self.hint):
                m = {}
                if unify(post, p2, m) and (lbl is None or unify(lbl, l2, m)):
                    key = (p2, l2)
                    if key not in seen:
                        seen.add(key)
                        out.append((env.bind(m), []))
            return out if out else False
        if rel.startswith("step:"):
            cls = sm.step.variants[rel[5:]]
            has_lbl = len(vals) - 2 > len(cls._fields)
            lbl = vals[2] if has_lbl else None
            vals = [vals[0], vals[1], lbl, cls(*vals[3 if has_lbl else 2:])]
            rel = "next_by"
        if rel.startswith("init:"):
            vals = [vals[0], sm.config.variants[rel[5:]](*vals[1:])]
            rel = "init_by"
        if rel == "next_by":
            pre, post, lbl, step = vals if len(vals) == 4 else (vals[0], vals[1], None, vals[2])
            if not ground(pre):
                raise Unbound()
            out = []
            for l2, s2, p2 in successors(c, sm, pre, lbl, step=step, hint=self.hint):
                m = {}
                if unify(post, p2, m) and (lbl is None or unify(lbl, l2, m)) and unify(step, s2, m):
                    out.append((env.bind(m), []))
            return out if out else False
        if rel in ("init_by", "init"):
            cfg = vals[1] if rel == "init_by" else None
            out = []
            for cf, p2 in initial(c, sm, cfg, vals[0], hint=self.hint):
                m = {}
                if unify(vals[0], p2, m) and (cfg is None or unify(cfg, cf, m)):
                    out.append((env.bind(m), []))
            return out if out else False
        raise Missing(rel)

    # tokenized state machines: add/remove/have on sharded collections
    def special(self, s, rest, g, env):
        _, op, field, kind, e = s
        cur = env.vals["#cur"][field]
        names, scope = g.names, g.scope
        nxt = lambda e2, n2=names: [(e2, [Goal("lets", rest, n2, scope)] if rest else [])]
        if kind == "kv":
            if e[0] == "call" if isinstance(e[0], str) else False:
                raise Missing("Some(..) token statement")
            kx, vx = e
            key = self.ev(kx, names, scope, env)
            if isinstance(key, LVar):
                raise Unbound()
            if op in ("remove", "have"):
                if key not in cur.d:
                    return False
                val = cur.d[key]
                e2 = env.copy()
                if op == "remove":
                    e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_remove(key)})
                if vx[0] == "letpat":
                    alts = self.match(vx[1], val, names, scope, e2)
                    return self.alts(alts, rest, g)
                want = self.ev(vx, names, scope, env)
                m = {}
                if not unify(want, val, m):
                    return False
                return [(e2.bind(m), [Goal("lets", rest, names, scope)] if rest else [])]
            val = self.ev(vx, names, scope, env)
            if not ground(val):
                raise Unbound()
            if key in cur.d:
                return False
            e2 = env.copy()
            e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_insert(key, val)})
            return nxt(e2)
        if kind == "single":
            val = self.ev(e, names, scope, env)
            if op in ("remove", "have"):
                if not ground(val):
                    out = []
                    for x in sorted(set(cur), key=verus_eval.sort_key):
                        m = {}
                        if unify(val, x, m):
                            e2 = env.bind(m)
                            if op == "remove":
                                e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_remove(x)})
                            out.append((e2, [Goal("lets", rest, names, scope)] if rest else []))
                    return out if out else False
                if val not in cur:
                    return False
                e2 = env.copy()
                if op == "remove":
                    e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_remove(val)})
                return nxt(e2)
            if not ground(val):
                raise Unbound()
            if isinstance(cur, FSet) and val in cur:
                return False        # the macro obliges callers to show freshness
            e2 = env.copy()
            e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_insert(val)})
            return nxt(e2)
        if kind == "all":
            val = self.ev(e, names, scope, env)
            if not ground(val):
                raise Unbound()
            e2 = env.copy()
            if op == "add":
                e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur.m_union(val) if isinstance(cur, FSet) else cur + val})
            elif op == "remove":
                if not (val <= cur):
                    return False
                e2.vals["#cur"] = dict(e2.vals["#cur"], **{field: cur - val if not isinstance(cur, FMap) else cur - set(val.d)})
            elif not (val <= cur):
                return False
            return nxt(e2)
        raise Missing(f"token statement {op} {kind}")


def apply_updates(solver, sm, env, base):
    vals = dict(base)
    for (s, names, scope) in env.vals["#upd"]:
        _, field, subs, e = s
        v = solver.ev(e, names, scope, env)
        if subs:
            def upd(cur, subs):
                if not subs:
                    return v
                kind, x = subs[0]
                if kind == "f":
                    return cur.with_(**{x: upd(getattr(cur, verus_eval.mangle(x)), subs[1:])})
                i = solver.ev(x, names, scope, env)
                nv = upd(cur[i], subs[1:]) if len(subs) > 1 else v
                return cur.m_update(i, nv) if isinstance(cur, Seq) else cur.m_insert(i, nv)
            v = upd(vals[field], subs)
        vals[field] = v
    return vals


def default_hint(crate, sm, tname, pname, ty, pre, env):
    return None


def prematch(pat, v):
    """False when a pattern cannot match a (possibly partial) label, judging by variant names only."""
    if not isinstance(v, Data):
        return True
    if pat[0] in ("pstruct", "pctor"):
        n = pat[1][-1]
        if n != v._variant and n in v._type.variants:
            return False
        if n == v._variant:
            subs = [(v._fields[i], p) for i, p in enumerate(pat[2] or []) if p[0] != "prest" and i < len(v._fields)] if pat[0] == "pctor" else pat[2]
            for f, p in subs or ():
                if f in v._fields and not prematch(p, getattr(v, verus_eval.mangle(f))):
                    return False
    return True


def label_tests(sm, t):
    """Tests on the label among a transition's leading requirements that are syntactically evident."""
    _, tname, params, body = t
    out = []
    if params and params[0][0][0] == "pbind":
        ln = params[0][0][1]
        for st in body:
            if st[0] == "require" and st[1][0] == "is" and st[1][1][:2] == ("path", [ln]):
                out.append(("pstruct", st[1][2], []))
            elif st[0] == "requirelet" and st[2][:2] == ("path", [ln]):
                out.append(st[1])
            elif st[0] == "let":
                if ln in verus_eval.pat_vars(st[1]):
                    break
    return out


def expand_lvar(crate, v):
    tt = v.ty
    if isinstance(tt, TypeDef) and len(tt.variants) == 1 and (tt in crate.expand_types or any(m.state is tt for m in crate.sms.values())):
        (n, cls), = tt.variants.items()
        out = []
        for _, ft in tt.vfields[n]:
            ft2 = crate.resolve_type(ft, tt.scope) if tt.scope is not None and isinstance(ft, tuple) and ft[0] == "ty" and not ft[2] else ft
            out.append(expand_lvar(crate, LVar(ft2 if isinstance(ft2, TypeDef) else ft)))
        return cls(*out)
    return v


def run_transition(crate, sm, t, pre, lbl=None, step=None, hint=None):
    """Yields (label, step, post) for one transition."""
    _, tname, params, body = t
    if lbl is not None and isinstance(lbl, Data):
        lt = sm.__dict__.setdefault("_lbltests", {})
        if tname not in lt:
            lt[tname] = label_tests(sm, t)
        for p in lt[tname]:
            if not prematch(p, lbl):
                return
    scope = sm.scope
    solver = Solver(crate, hint)
    env = Env()
    names = {}
    order = []
    stepcls = sm.step.variants[tname]
    has_lbl = len(params) == len(stepcls._fields) + 1
    lslot = None
    if pre is not None:
        s = next(_slot)
        env.set(s, pre)
        names["pre"] = s
        names["self"] = s
    for i, (pat, ty) in enumerate(params):
        s = next(_slot)
        pname = pat[1]
        if has_lbl and i == 0:
            lt = crate.resolve_type(ty, scope)
            v = lbl if lbl is not None else LVar(lt if isinstance(lt, TypeDef) else ty)
            lslot = s
        elif step is not None and isinstance(step, Data):
            v = getattr(step, verus_eval.mangle(pname))
            if isinstance(v, LVar) and v.ty is None:
                v = LVar(ty)
        else:
            tt = crate.resolve_type(ty, scope) if ty[0] == "ty" else None
            v = LVar(tt if isinstance(tt, TypeDef) and (not ty[2] or any(m.state is tt for m in crate.sms.values())) else ty)
            v = expand_lvar(crate, v)
        env.set(s, v)
        names[pname] = s
        order.append((pname, ty, s, has_lbl and i == 0))
    env.vals["#upd"] = ()
    env.vals["#cur"] = {f: getattr(pre, verus_eval.mangle(f)) for f in sm.fields} if pre is not None else {}

    def enum(env, goals):
        for pname, ty, s, is_l in order:
            v = env.vals[s]
            if ground(v):
                continue
            cands = None
            if hint is not None:
                cands = hint(crate, sm, tname, pname, ty, pre, lambda n: env.vals[names[n]])
            if cands is DEFER:
                continue
            if cands is None:
                if is_l and isinstance(v, Data):
                    cands = enum_partial(crate, v, scope, hint, sm, tname, pre)
                else:
                    cands = crate.enum_type(ty, scope)
            out = []
            for x in cands:
                m = {}
                if unify(v, x, m):
                    out.append(env.bind(m))
            return out
        # variables introduced by inlining
        deferred = False
        for s in sorted(x for x in env.ng if isinstance(x, int)):
            v = env.vals[s]
            lvs = []
            collect(v, lvs)
            cands = None
            for lv in lvs:
                ty = lv.ty
                cands = None
                if hint is not None:
                    cands = hint(crate, sm, tname, None, ty, pre, lambda n: env.vals[names[n]])
                if cands is not DEFER:
                    break
            if not lvs or cands is DEFER:
                deferred = True
                continue
            if cands is None:
                cands = enum_ty(crate, ty, scope)
            return [env.bind({id(lv): (lv, x)}) for x in cands]
        if deferred:
            raise Unbound()
        return None

    for e in solver.solve([Goal("lets", list(body), names, scope)], env, enum):
        try:
            base = dict(e.vals["#cur"])
            vals = apply_updates(solver, sm, e, base)
        except Undef:
            continue
        try:
            post = sm.state.variants["State"](*[vals[f] for f in sm.fields])
        except KeyError as ex:
            raise Missing(f"{sm.name}.{tname}: field {ex} not initialised")
        l2 = e.vals[lslot] if lslot is not None else lbl
        yield l2, stepcls(*[e.vals[s] for pn, ty, s, il in order if not il]), post


def collect(v, out):
    if isinstance(v, LVar):
        out.append(v)
    elif isinstance(v, Data):
        for s in v._slots:
            collect(getattr(v, s), out)
    elif type(v) is tuple:
        for x in v:
            collect(x, out)


def enum_ty(crate, ty, scope):
    if isinstance(ty, TypeDef):
        return crate.enum_type(("ty", [ty.name], []), ty.scope)
    return crate.enum_type(ty, scope)


def enum_partial(crate, v, scope, hint, sm, tname, pre):
    """Candidates for the first unbound piece of a partially known label."""
    lvs = []
    collect(v, lvs)
    lv = lvs[0]
    # find the (variant, field) it sits in, for hints
    where = find_field(v, lv)
    cands = None
    if hint is not None and where is not None:
        cands = hint(crate, sm, tname, f"{where[0]}.{where[1]}", lv.ty, pre, None)
    if cands is None:
        ty = lv.ty
        own = where[2]._type if where else None
        cands = enum_ty(crate, ty, own.scope if own is not None and own.scope is not None else scope)
    return [subst(v, {id(lv): (lv, x)}) for x in cands]


def find_field(v, lv):
    if isinstance(v, Data):
        for f, s in zip(v._fields, v._slots):
            x = getattr(v, s)
            if x is lv:
                return (v._variant, f, v)
            r = find_field(x, lv)
            if r is not None:
                return r
    if type(v) is tuple:
        for x in v:
            r = find_field(x, lv)
            if r:
                return r
    return None


def successors(crate, sm, pre, lbl=None, step=None, hint=None, only=None):
    """Yields (label, step, post) for every transition enabled in pre.  lbl/step may be partial (contain LVars) or None."""
    if lbl is not None and isinstance(lbl, LVar):
        lbl = None
    if step is not None and isinstance(step, LVar):
        step = None
    names = [step._variant] if step is not None else list(sm.transitions)
    for n in names:
        if only is not None and n not in only:
            continue
        if n not in sm.transitions:
            continue
        yield from run_transition(crate, sm, sm.transitions[n], pre, lbl, step, hint)


def memo_successors(crate, sm, pre, lbl, hint):
    if lbl is None or not ground(lbl):
        return successors(crate, sm, pre, lbl, hint=hint)
    memo = crate.__dict__.setdefault("_succmemo", {})
    key = (id(sm), pre, lbl)
    r = memo.get(key)
    if r is None:
        if len(memo) > 200000:
            memo.clear()
        r = memo[key] = list(successors(crate, sm, pre, lbl, hint=hint))
    return r


def initial(crate, sm, cfg=None, post=None, hint=None):
    """Yields (config, state)."""
    if isinstance(cfg, LVar):
        cfg = None
    names = [cfg._variant] if cfg is not None else list(sm.inits)
    for n in names:
        if n not in sm.inits:
            continue
        _, tname, params, body = sm.inits[n]
        scope = sm.scope
        solver = Solver(crate, hint)
        env = Env()
        nm = {}
        order = []
        cls = sm.config.variants[tname]
        for pat, ty in params:
            s = next(_slot)
            v = getattr(cfg, verus_eval.mangle(pat[1])) if cfg is not None else LVar(ty)
            # An init parameter that is the whole state stands for the state being initialised.
            if isinstance(v, LVar) and ty[0] == "ty" and crate.resolve_type(ty, scope) is sm.state:
                v = post if post is not None and ground(post) else sm.state.variants["State"](*[LVar(t) for _, t in sm.state.vfields["State"]])
            env.set(s, v)
            nm[pat[1]] = s
            order.append((pat[1], ty, s))
        env.vals["#upd"] = ()
        env.vals["#cur"] = {}

        def enum(env, goals):
            for pname, ty, s in order:
                v = env.vals[s]
                if ground(v) or (not goals and isinstance(v, Data) and v._type is sm.state):
                    continue
                cands = None
                if hint is not None:
                    cands = hint(crate, sm, tname, pname, ty, None, lambda n: env.vals[nm[n]])
                if cands is None:
                    if isinstance(v, Data):
                        cands = enum_partial(crate, v, scope, hint, sm, tname, None)
                    else:
                        cands = crate.enum_type(ty, scope)
                out = []
                for x in cands:
                    m = {}
                    if unify(v, x, m):
                        out.append(env.bind(m))
                return out
            return None
        # A State-typed parameter may have fields that no requirement determines but `init` statements set differently.
        for e in solver.solve([Goal("lets", list(body), nm, scope)], env, enum):
            vals = apply_updates(solver, sm, e, {})
            try:
                st = sm.state.variants["State"](*[vals[f] for f in sm.fields])
            except KeyError as ex:
                raise Missing(f"{sm.name}.{tname}: field {ex} not initialised")
            yield cls(*[e.vals[s] for _, _, s in order]), st


def relation(crate, sm, rel):
    def next_(pre, post, lbl=None):
        return any(p == post for _, _, p in successors(crate, sm, pre, lbl, hint=crate.hint))

    def next_by(pre, post, *a):
        lbl, step = (a[0], a[1]) if len(a) == 2 else (None, a[0])
        return any(p == post for _, _, p in successors(crate, sm, pre, lbl, step=step, hint=crate.hint))

    def init(post):
        return any(p == post for _, p in initial(crate, sm, None, post, hint=crate.hint))

    def init_by(post, cfg):
        return any(p == post for _, p in initial(crate, sm, cfg, post, hint=crate.hint))
    if rel.startswith("init:"):
        return lambda post, *a: init_by(post, sm.config.variants[rel[5:]](*a))
    if rel.startswith("step:"):
        cls = sm.step.variants[rel[5:]]
        return lambda pre, post, *a: (next_by(pre, post, a[0], cls(*a[1:])) if len(a) > len(cls._fields) else next_by(pre, post, cls(*a)))
    return {"next": next_, "next_by": next_by, "init": init, "init_by": init_by}[rel]
