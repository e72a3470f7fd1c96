"""Evaluator for the Verus specification language: loads the current sources below /repo/Splinter/src and compiles spec
functions and state-machine definitions to Python.  Nothing here knows what the code is supposed to do: it executes what
the sources say, over bounded universes for quantified variables.
"""
import itertools
import os
import re
import sys

from rt import (Arb, Data, FMap, FSet, LVar, MSet, Missing, Seq, TypeDef, Unbound, Undef, ediv, emod, mangle, nat,
                sort_key)
import verus_parse

sys.setrecursionlimit(20000)

INT_TYPES = {"int", "nat", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"}
UNSIGNED = {"nat", "u8", "u16", "u32", "u64", "u128", "usize"}


# ------------------------------------------------------------------------------------------------ entities
class Module:
    def __init__(self, path):
        self.path = path
        self.items = {}
        self.uses = []          # (segs, alias)
        self.globs = []
        self.pub = set()
        self.file = None


class FnDecl:
    __slots__ = ("name", "params", "ret", "body", "mode", "scope", "py", "pyname", "gens", "when", "nparams", "impl_args",
                 "relational", "generics", "attrs", "parser")

    def __init__(self, item, scope, impl_args=None):
        _, self.name, self.params, self.ret, self.body, self.mode, self.attrs, self.generics, self.when = item
        self.scope = scope
        self.py = None
        self.pyname = None
        self.gens = {}
        self.nparams = len(self.params)
        self.impl_args = impl_args

    def is_method(self):
        return bool(self.params) and self.params[0][0] == ("pbind", "self")

    def __repr__(self):
        return f"<fn {self.scope.where()}::{self.name}>"


class Scope:
    """Static name-resolution context."""

    def __init__(self, crate, module, self_type=None, generics=(), sm=None):
        self.crate = crate
        self.module = module
        self.self_type = self_type
        self.generics = frozenset(generics)
        self.sm = sm

    def where(self):
        return "::".join(self.module.path) + (f"::{self.self_type.name}" if self.self_type else "")


class SM:
    def __init__(self, name, generics, items, scope):
        self.name = name
        self.generics = generics
        self.scope = scope
        self.fields = []
        self.inits = {}
        self.transitions = {}
        self.compiled = {}
        self.props = {}
        self.items = items

    def __repr__(self):
        return f"<sm {self.name}>"


class Alias:
    def __init__(self, generics, ty, scope):
        self.generics, self.ty, self.scope = generics, ty, scope


class Const:
    def __init__(self, e, scope):
        self.e, self.scope = e, scope
        self.val = None
        self.done = False


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<builtin {self.name}>"


BUILTIN_TYPES = {"Map", "Set", "Seq", "Multiset", "FullMap", "Ghost", "Tracked", "bool", "str", "String", "Vec", "IMap",
                 "ISet"} | INT_TYPES


def _multi_init(mod):
    return mod


class Rng:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


# ------------------------------------------------------------------------------------------------ runtime helpers
def r_any(*thunks):
    """First usable generator; integer ranges are intersected."""
    lo = hi = unb = None
    for t in thunks:
        try:
            g = t()
        except Unbound as e:
            unb = e
            continue
        except Undef:
            continue
        if g is None:
            continue
        if isinstance(g, Rng):
            if g.lo is not None:
                lo = g.lo if lo is None else max(lo, g.lo)
            if g.hi is not None:
                hi = g.hi if hi is None else min(hi, g.hi)
            continue
        return g
    if unb is not None and hi is None:
        raise unb
    if lo is None and hi is None:
        return None
    return Rng(lo, hi)


def r_union(*thunks):
    out = []
    for t in thunks:
        g = t()
        if g is None:
            return None
        if isinstance(g, Rng):
            if g.hi is None:
                return None
            g = range(g.lo if g.lo is not None else 0, g.hi)
        out.append(g)
    if len(out) == 1:
        return out[0]
    seen, res = set(), []
    for g in out:
        for x in g:
            if x not in seen:
                seen.add(x)
                res.append(x)
    return res


def r_int(x):
    if isinstance(x, LVar):
        raise Unbound()
    return x if type(x) is int else None


def rng_lo(x):
    x = r_int(x)
    return None if x is None else Rng(x, None)


def rng_hi(x):
    x = r_int(x)
    return None if x is None else Rng(None, x)


def r_is(x, v):
    try:
        return x._variant == v
    except AttributeError:
        if isinstance(x, Arb):
            raise Undef("is")
        raise


def r_tup(x, i):
    if type(x) is tuple:
        return x[i]
    return getattr(x, f"f_{i}")


def r_view(x):
    if type(x) in (int, bool, tuple, str):
        return x
    f = getattr(x, "m_view", None)
    if f is None:
        return x
    return f()


def r_method(x, name):
    if type(x) is int:
        return INT_METHODS[name].__get__(x)
    return getattr(x, name)


def r_eq(a, b):
    if isinstance(b, LVar) or isinstance(a, LVar):
        raise Unbound()
    return a == b


INT_METHODS = {
    "m_view": lambda x: x,
    "m_ghost": lambda x: x,
    "m_clone": lambda x: x,
}


def r_iter(s):
    if isinstance(s, (Arb,)):
        return []
    return s


def r_filter_map(dom, p, f):
    return FMap((x, f(x)) for x in dom if p(x))


def r_seqnew(n, f):
    if n < 0:
        return Arb(("Seq::new", n))
    return Seq(f(i) for i in range(n))


def r_match_fail(x):
    raise Undef("no match arm")


BUILTIN_CALLS = {
    "Map::empty": "FMap()", "Set::empty": "FSet()", "Seq::empty": "Seq()", "Multiset::empty": "MSet()",
    "IMap::empty": "FMap()", "ISet::empty": "FSet()",
}


def install_option(crate):
    t = TypeDef("Option", ["V"])
    t.add("None", [])
    t.add("Some", [("0", ("ty", ["V"], []))])
    B = t.base
    B.m_is_some = lambda s: s._variant == "Some"
    B.m_is_none = lambda s: s._variant == "None"
    B.m_unwrap = lambda s: s.f_0 if s._variant == "Some" else Arb(("unwrap",))
    B.m_view = lambda s: s if s._variant == "None" else t.variants["Some"](r_view(s.f_0))
    B.m_unwrap_or = lambda s, d: s.f_0 if s._variant == "Some" else d
    r = TypeDef("Result", ["T", "E"])
    r.add("Ok", [("0", ("ty", ["T"], []))])
    r.add("Err", [("0", ("ty", ["E"], []))])
    return t, r


def _data_getattr(self, n):
    if n.startswith("f_"):
        return Arb((self, n))
    if n.startswith("m_"):
        if n in ("m_clone", "m_ghost"):
            return lambda: self
        raise Missing(f"no method {n[2:]} on {type(self)._type.name}")
    raise AttributeError(n)


Data.__getattr__ = _data_getattr


# ------------------------------------------------------------------------------------------------ crate
class Crate:
    """bindings: generic parameter name -> type name (e.g. {"T": "SimpleBuffer"});
    prefer: type names preferred when several impls of a generic type define the same function;
    univ: type name -> list of values, or a function (crate, type) -> list;
    natmax: largest value enumerated for unguarded nat quantifiers."""

    def __init__(self, root="/repo/Splinter/src", dirs=None, bindings=None, prefer=(), univ=None, natmax=None, skip=()):
        self.root = root
        self.bindings = dict(bindings or {})
        self.prefer = list(prefer)
        self.univ = dict(univ or {})
        self.natmax = natmax
        self.modules = {}
        self.relational_hints = {}
        self.call_gens = {}          # method name -> fn(recv, args, idx) -> list or None   (witness finders)
        self.expand_types = set()    # struct types whose unknown values are solved field by field
        self.overrides = {}          # "Type::fn" -> python function
        self.ns = {k: v for k, v in globals().items() if k.startswith("r_") or k.startswith("rng_") or k in (
            "Arb", "FMap", "FSet", "MSet", "Seq", "Undef", "Unbound", "ediv", "emod", "nat", "Rng", "sort_key", "Missing")}
        self.ns["itertools"] = itertools
        self.counter = itertools.count()
        self.Option, self.Result = install_option(self)
        self.fn_by_name = {}
        self.traits = {}
        self.all_types = {}
        self.sms = {}
        self.pending_impls = []
        self.ns["crate"] = self
        self.sources = []
        self.unparsed = []
        self.hint = None
        self._load(dirs, skip)

    # -- loading
    def _load(self, dirs, skip):
        files = []
        for d, _, fs in sorted(os.walk(self.root)):
            rel = os.path.relpath(d, self.root)
            top = rel.split(os.sep)[0]
            if top in ("model-exp", "resource-experiment") or (dirs and rel != "." and top not in dirs):
                continue
            for f in sorted(fs):
                if f.endswith(".rs") and f not in skip:
                    files.append(os.path.join(d, f))
        todo = []
        for p in files:
            rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
            if rel[-1] in ("mod", "lib", "sequential_main"):
                rel = rel[:-1]
            if dirs and len(rel) == 1 and rel[0] not in dirs:
                continue
            m = self.modules.setdefault(tuple(rel), Module(tuple(rel)))
            m.file = p
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.sources.append(p)
            try:
                parser = verus_parse.Parser(src, p)
                todo.append((m, parser.items(), parser))
            except verus_parse.ParseError as e:
                self.unparsed.append(str(e))
        for p in list(self.modules):
            for i in range(len(p)):
                parent = self.modules.setdefault(p[:i], Module(p[:i]))
                parent.items.setdefault(p[i], self.modules[p[:i + 1]] if p[:i + 1] in self.modules else None)
                if parent.items[p[i]] is None:
                    parent.items[p[i]] = self.modules.setdefault(p[:i + 1], Module(p[:i + 1]))
        self.root_module = self.modules.setdefault((), Module(()))
        for m, items, parser in todo:
            self.declare(m, items, Scope(self, m))
        self._impls()

    def declare(self, m, items, scope):
        for it in items:
            self.declare1(m, it, scope)

    def declare1(self, m, it, scope):
        k = it[0]
        if k == "use":
            if len(it) > 3:
                m.pub.add((tuple(it[1]), it[2]))
            if it[2] == "*":
                m.globs.append(it[1])
            else:
                m.uses.append((it[1], it[2]))
        elif k == "struct":
            t = TypeDef(it[1], it[2])
            t.scope = Scope(self, m, t, list(it[2]) + list(scope.generics), scope.sm)
            t.kind = it[3]
            t.is_enum = False
            t.add(it[1], it[4])
            m.items[it[1]] = t
            self.all_types.setdefault(it[1], t)
        elif k == "enum":
            t = TypeDef(it[1], it[2])
            t.scope = Scope(self, m, t, list(it[2]) + list(scope.generics), scope.sm)
            t.is_enum = True
            t.kinds = {}
            for vn, vk, fs in it[3]:
                t.add(vn, fs)
                t.kinds[vn] = vk
            m.items[it[1]] = t
            self.all_types.setdefault(it[1], t)
        elif k == "type":
            m.items[it[1]] = Alias(it[2], it[3], Scope(self, m, scope.self_type, list(it[2]) + list(scope.generics), scope.sm))
        elif k == "fn":
            f = FnDecl(it, Scope(self, m, scope.self_type, list(it[7]) + list(scope.generics), scope.sm))
            m.items[it[1]] = f
            self.fn_by_name.setdefault(it[1], []).append(f)
        elif k == "impl":
            self.pending_impls.append((m, it, scope))
        elif k == "trait":
            t = {"name": it[1], "items": it[2], "scope": Scope(self, m, None, [], scope.sm)}
            self.traits[it[1]] = t
            m.items[it[1]] = ("trait", it[1])
            for x in it[2]:
                if x[0] == "fn":
                    self.fn_by_name.setdefault(x[1], []).append(FnDecl(x, t["scope"]))
        elif k == "const":
            m.items[it[1]] = Const(it[3], scope)
        elif k == "mod":
            if it[2] is not None:
                sub = self.modules.setdefault(m.path + (it[1],), Module(m.path + (it[1],)))
                m.items[it[1]] = sub
                self.declare(sub, it[2], Scope(self, sub))
        elif k == "sm":
            self.declare_sm(m, it)

    def declare_sm(self, m, it):
        _, name, generics, tok, items = it
        sub = self.modules.setdefault(m.path + ("#" + name,), Module(m.path + ("#" + name,)))
        sub.parent = m
        m.items[name] = sub
        sub.globs.append(("#parent",))
        sm = SM(name, generics, items, None)
        sub.sm = sm
        fields = []
        for x in items:
            if x[0] == "fields":
                fields = x[1]
        st = TypeDef("State", generics)
        st.sm = sm
        st.is_enum = False
        st.kind = "named"
        st.scope = Scope(self, sub, st, generics, sm)
        st.add("State", fields)
        st.label = name
        sub.items["State"] = st
        sm.state = st
        sm.scope = st.scope
        sm.fields = [f for f, _ in fields]
        step = TypeDef("Step", generics)
        step.is_enum = True
        step.kinds = {}
        step.scope = st.scope
        cfg = TypeDef("Config", generics)
        cfg.is_enum = True
        cfg.kinds = {}
        cfg.scope = st.scope
        sub.items["Step"], sub.items["Config"] = step, cfg
        sm.step, sm.config = step, cfg
        for x in items:
            if x[0] in ("transition", "readonly"):
                sm.transitions[x[1]] = x
                ps = [(p[0][1], p[1]) for p in x[2] if p[0][0] == "pbind"]
                if ps and ps[0][0] in ("lbl", "label", "_lbl", "_label") or (ps and ps[0][1] == ("ty", ["Label"], [])):
                    ps = ps[1:]
                step.add(x[1], ps)
                step.kinds[x[1]] = "tuple"
            elif x[0] == "init":
                sm.inits[x[1]] = x
                cfg.add(x[1], [(p[0][1], p[1]) for p in x[2]])
                cfg.kinds[x[1]] = "tuple"
            elif x[0] == "property":
                sm.props[x[1]] = x
            elif x[0] == "fn":
                f = FnDecl(x, st.scope)
                st.fns.setdefault(x[1], f)
                self.fn_by_name.setdefault(x[1], []).append(f)
            elif x[0] == "fields":
                pass
            elif x[0] == "const":
                sub.items[x[1]] = Const(x[3], st.scope)
            elif x[0] in ("use", "struct", "enum", "type"):
                self.declare1(sub, x, st.scope)
        step.add("dummy_to_use_type_params", [("0", ("any",))])
        step.kinds["dummy_to_use_type_params"] = "tuple"
        for n in ("next", "next_by", "init", "init_by"):
            st.fns[n] = ("smrel", sm, n)
        for n in sm.inits:
            st.fns.setdefault(n, ("smrel", sm, "init:" + n))
        for n in sm.transitions:
            st.fns.setdefault(n, ("smrel", sm, "step:" + n))
        self.sms[name] = sm
        if "/".join(m.path) != "":
            self.sms["::".join(m.path) + "::" + name] = sm
        self._install_methods(st)

    def _impls(self):
        for m, it, scope in self.pending_impls:
            _, generics, trait, ty, items = it
            sc0 = Scope(self, m, None, generics, scope.sm)
            try:
                t = self.resolve_type(ty, sc0)
            except Missing:
                continue
            if not isinstance(t, TypeDef):
                continue
            sc = Scope(self, m, t, list(generics) + list(t.generics), scope.sm or (t.scope.sm if t.scope else None))
            args = [a[1][-1] for a in (ty[2] if ty[0] == "ty" else []) if a[0] == "ty"]
            names = set()
            for x in items:
                if x[0] == "fn":
                    f = FnDecl(x, Scope(self, m, t, list(sc.generics) + list(x[7]), sc.sm), args)
                    names.add(x[1])
                    self.fn_by_name.setdefault(x[1], []).append(f)
                    self._add_fn(t, x[1], f)
                elif x[0] == "const":
                    t.fns.setdefault(x[1], Const(x[3], sc))
                elif x[0] == "type":
                    t.fns.setdefault("type " + x[1], (x[3], sc))
            if trait is not None and trait[0] == "ty":
                tr = self.traits.get(trait[1][-1])
                if tr:
                    for x in tr["items"]:
                        if x[0] == "fn" and x[1] not in names and x[4] is not None:
                            f = FnDecl(x, Scope(self, tr["scope"].module, t, sc.generics, None), args)
                            t.fns.setdefault(x[1], f)
        done = set()
        for t in list(self.every_type()):
            if t.uid not in done:
                done.add(t.uid)
                self._install_methods(t)

    def every_type(self):
        for m in self.modules.values():
            for x in list(m.items.values()):
                if isinstance(x, TypeDef):
                    yield x

    def _add_fn(self, t, name, f):
        old = t.fns.get(name)
        if old is None or not isinstance(old, FnDecl):
            t.fns[name] = f
            return
        # several impls: prefer the one whose type arguments are preferred; spec over exec; bodies over declarations
        def score(g):
            s = 0
            if g.mode == "spec":
                s += 4
            if g.body is not None:
                s += 2
            if g.impl_args:
                if any(a in self.prefer for a in g.impl_args):
                    s += 8
                elif any(a in self.all_types for a in g.impl_args):
                    s -= 1
            return s
        if score(f) > score(old):
            t.fns[name] = f

    def _install_methods(self, t):
        for n, f in t.fns.items():
            if isinstance(f, FnDecl) and f.is_method() and f.mode == "spec":
                setattr(t.base, "m_" + n, self._stub(t, n, f))
        return

    def _stub(self, t, n, f):
        crate = self

        def stub(*args):
            g = crate.fn(f)
            setattr(t.base, "m_" + n, g)
            return g(*args)
        return stub

    # -- resolution
    def lookup(self, name, mod, seen=None, pubonly=False):
        """Name in a module: own items, then explicit uses, then globs."""
        key = (name, mod.path, pubonly)
        if seen is None:
            seen = set()
        if key in seen:
            return None
        seen.add(key)
        if name in mod.items:
            return mod.items[name]
        for segs, alias in mod.uses:
            if alias == name and not (pubonly and (tuple(segs), alias) not in mod.pub):
                r = self.resolve_abs(segs, mod, seen)
                if r is not None:
                    return r
        for segs in mod.globs:
            if pubonly and segs != ("#parent",) and (tuple(segs), "*") not in mod.pub:
                continue
            if segs == ("#parent",):
                r = self.lookup(name, mod.parent, seen)
            else:
                tgt = self.resolve_abs(segs, mod, set())
                if isinstance(tgt, Module):
                    r = self.lookup(name, tgt, seen, mod.path[:len(tgt.path)] != tgt.path)
                elif isinstance(tgt, TypeDef) and name in tgt.variants:
                    r = ("variant", tgt, name)
                else:
                    r = None
            if r is not None:
                return r
        return None

    def resolve_abs(self, segs, mod, seen):
        cur = None
        segs = list(segs)
        if not segs:
            return None
        if segs[0] == "crate":
            cur = self.root_module
            segs = segs[1:]
        elif segs[0] in ("self", "super"):
            cur = mod
            while segs and segs[0] in ("self", "super"):
                if segs[0] == "super":
                    cur = self.modules.get(cur.path[:-1])
                segs = segs[1:]
        elif segs[0] in ("vstd", "builtin", "std", "core", "builtin_macros", "alloc"):
            if segs[-1] == "Option":
                return self.Option
            if segs[-1] == "Result":
                return self.Result
            if segs[-1] in BUILTIN_TYPES:
                return Builtin(segs[-1])
            return None
        else:
            if segs[0] in mod.items:
                cur = mod.items[segs[0]]
            elif (segs[0],) in self.modules:
                cur = self.modules[(segs[0],)]
            else:
                cur = self.lookup(segs[0], mod, seen)
            segs = segs[1:]
        for s in segs:
            if cur is None:
                return None
            cur = self.step_path(cur, s, None, seen)
        return cur

    def step_path(self, cur, s, scope, seen=None):
        if isinstance(cur, Module):
            return self.lookup(s, cur, seen if seen is not None else set())
        if isinstance(cur, Alias):
            cur = self.resolve_type(cur.ty, cur.scope)
        if isinstance(cur, TypeDef):
            if s in cur.variants and getattr(cur, "is_enum", True):
                return ("variant", cur, s)
            if s in cur.fns:
                return cur.fns[s]
            if "type " + s in cur.fns:
                ty, sc = cur.fns["type " + s]
                return self.resolve_type(ty, sc)
            if hasattr(cur, "sm"):
                return self.lookup(s, cur.scope.module, set())
            return None
        if isinstance(cur, Builtin):
            return Builtin(cur.name + "::" + s)
        if isinstance(cur, tuple) and cur and cur[0] == "trait":
            return ("traitfn", cur[1], s)
        return None

    def resolve(self, segs, scope):
        key = (id(scope), tuple(segs))
        c = self.__dict__.setdefault("_rescache", {})
        r = c.get(key)
        if r is None:
            r = c[key] = (scope, self.resolve_(segs, scope))
        return r[1]

    def resolve_(self, segs, scope):
        s0 = segs[0]
        if s0 == "Self":
            cur = scope.self_type
            rest = segs[1:]
        elif s0 in scope.generics and len(segs) >= 1 and (s0 in self.bindings or len(segs) == 1):
            b = self.bindings.get(s0)
            if b is None:
                return ("generic", s0)
            cur = b if isinstance(b, (TypeDef, Builtin)) else self.find_type(b)
            rest = segs[1:]
        elif s0 in ("crate", "self", "super"):
            return self.resolve_abs(segs, scope.module, set())
        elif s0 == "vstd":
            return self.resolve_abs(segs, scope.module, set())
        else:
            cur = self.lookup(s0, scope.module)
            if cur is None:
                if s0 == "Option":
                    cur = self.Option
                elif s0 == "Result":
                    cur = self.Result
                elif s0 in ("Some", "None") and len(segs) == 1:
                    return ("variant", self.Option, s0)
                elif s0 in ("Ok", "Err") and len(segs) == 1:
                    return ("variant", self.Result, s0)
                elif s0 in BUILTIN_TYPES:
                    cur = Builtin(s0)
                elif (s0,) in self.modules:
                    cur = self.modules[(s0,)]
                elif s0 in scope.generics:
                    return ("traitfn", s0, segs[-1])
            rest = segs[1:]
        for s in rest:
            if cur is None:
                return None
            cur = self.step_path(cur, s, scope)
        return cur

    def find_type(self, name):
        if "::" in name:
            r = self.resolve_abs(["crate"] + name.split("::"), self.root_module, set())
            if r is None:
                raise Missing(f"type {name}")
            return r
        if name in self.all_types:
            return self.all_types[name]
        if name in INT_TYPES or name in BUILTIN_TYPES:
            return Builtin(name)
        raise Missing(f"type {name}")

    def resolve_type(self, ty, scope):
        """TypeDef, Builtin or other for a type AST."""
        if ty[0] != "ty":
            return None
        r = self.resolve(ty[1], scope)
        k = 0
        while isinstance(r, Alias) and k < 20:
            if r.ty is None or r.ty[0] != "ty":
                return None
            r = self.resolve(r.ty[1], r.scope)
            k += 1
        return r

    # -- functions
    def fn(self, f):
        """The compiled Python function of a declaration."""
        if isinstance(f, tuple) and f[0] == "smrel":
            return self.smrel(f[1], f[2])
        if f.py is None:
            key = (f.scope.self_type.name + "::" if f.scope.self_type else "") + f.name
            if key in self.overrides:
                f.py = self.overrides[key]
                return f.py
            f.py = self.compile_fn(f)
        return f.py

    def fname(self, f):
        """Global name under which generated code calls f (compiled on first call)."""
        if isinstance(f, tuple):
            n = f"F_{f[1].name}_{f[2]}".replace(":", "__")
            if n not in self.ns:
                self.ns[n] = self.smrel(f[1], f[2])
            return n
        if f.pyname is None:
            f.pyname = f"F_{f.name}_{next(self.counter)}"
            name = f.pyname

            def stub(*a):
                g = self.fn(f)
                self.ns[name] = g
                return g(*a)
            self.ns[name] = stub
        return f.pyname

    def compile_fn(self, f):
        if f.body is None or f.mode not in ("spec",):
            raise Missing(f"{f!r} has no specification body")
        g = Gen(self, f.scope)
        names, pre = [], []
        env = {}
        for pat, ty in f.params:
            v = g.fresh("p")
            names.append(v)
            if pat[0] == "pbind":
                env[pat[1]] = v
                g.types[v] = ty
            elif pat[0] != "pwild":
                pre.append((pat, v))
        lines = []
        for pat, v in pre:
            g.bind_pattern(pat, v, env, lines)
        if f.when is not None:
            c = g.expr(f.when, env, lines)
            lines.append(f"if not {c}: return Arb(('when',))")
        g.expect(f.body, f.ret, f.scope)
        e = g.expr(f.body, env, lines)
        lines.append(f"return {e}")
        py = self.make(f"fn_{f.name}", names, lines)
        return memo(py) if f.params and costly(f.body) else py

    def make(self, name, params, lines):
        src = f"def {name}({', '.join(params)}):\n" + "\n".join("  " + ln for ln in flatten(lines)) + "\n"
        loc = {}
        try:
            code = compile(src, f"<{name}>", "exec")
        except SyntaxError:
            print(src, file=sys.stderr)
            raise
        exec(code, self.ns, loc)
        fn = loc[name]
        fn.__src__ = src
        return fn

    def const_val(self, c):
        if not c.done:
            g = Gen(self, c.scope)
            lines = []
            e = g.expr(c.e, {}, lines)
            lines.append(f"return {e}")
            c.val = self.make("const", [], lines)()
            c.done = True
        return c.val

    def gen_fn(self, f, idx, want):
        """A function of f's parameters yielding a superset of the values of parameter idx that make f's result equal `want`
        (the idx-th argument is ignored); None when there is none."""
        key = (idx, want)
        if key not in f.gens:
            if f.body is None or f.mode != "spec":
                f.gens[key] = None
            else:
                f.gens[key] = None      # recursion guard
                g = Gen(self, f.scope)
                names, env = [], {}
                target = None
                for i, (pat, ty) in enumerate(f.params):
                    v = g.fresh("p")
                    names.append(v)
                    if pat[0] != "pbind":
                        target = None
                        break
                    env[pat[1]] = v
                    if i == idx:
                        target = pat[1]
                        tty = ty
                if target is not None:
                    lines = []
                    env2 = dict(env)
                    del env2[target]
                    s = g.guard(f.body, target, env2, lines, want, tty)
                    if s is not None:
                        lines.append(f"return {s}")
                        f.gens[key] = self.make(f"gen_{f.name}", names, lines)
        return f.gens[key]

    # -- universes
    def enum_type(self, ty, scope, depth=0):
        """All values of a type within the configured universe."""
        if ty is not None and ty[0] == "#scoped":
            return self.enum_type(ty[1], ty[2], depth)
        if ty is None or ty[0] == "any":
            raise Missing("no universe for an unannotated variable")
        if ty[0] == "tup":
            return [tuple(x) for x in itertools.product(*[self.enum_type(t, scope, depth + 1) for t in ty[1]])]
        if ty[0] != "ty":
            raise Missing(f"no universe for {ty}")
        name = ty[1][-1]
        if len(ty[1]) == 1 and name in scope.generics and name in self.bindings:
            b = self.bindings[name]
            name = b if isinstance(b, str) else b.name
            ty = ("ty", name.split("::"), [])
            scope = Scope(self, self.root_module)
            name = ty[1][-1]
        full = "::".join(ty[1])
        for n in (full, name):
            if n in self.univ:
                u = self.univ[n]
                return u(self, ty) if callable(u) else u
        if name == "bool":
            return [False, True]
        if name in INT_TYPES:
            if self.natmax is None:
                raise Missing(f"no universe for {name}")
            lo = 0 if name in UNSIGNED else 0
            return range(lo, self.natmax + 1)
        r = self.resolve(ty[1], scope)
        if isinstance(r, Alias):
            return self.enum_type(r.ty, r.scope, depth + 1)
        if isinstance(r, TypeDef):
            out = []
            for vn, cls in r.variants.items():
                if vn == "dummy_to_use_type_params":
                    continue
                sub = {}
                for gname, a in zip(r.generics, ty[2]):
                    sub[gname] = a
                cols = []
                for fname, fty in r.vfields[vn]:
                    if fty[0] == "ty" and len(fty[1]) == 1 and fty[1][0] in sub:
                        cols.append(list(self.enum_type(sub[fty[1][0]], scope, depth + 1)))
                    else:
                        cols.append(list(self.enum_type(fty, r.scope or scope, depth + 1)))
                n = 1
                for c in cols:
                    n *= len(c)
                if n > 200000:
                    raise Missing(f"universe of {r.name} too large")
                out.extend(cls(*x) for x in itertools.product(*cols))
            return out
        raise Missing(f"no universe for {full}")

    def dom(self, g, ty, scope, what):
        """Concrete domain of a quantified variable from generator g (or the universe of its type)."""
        if g is not None and not isinstance(g, Rng):
            return g
        if isinstance(g, Rng):
            lo, hi = g.lo, g.hi
            if hi is not None:
                return range(lo if lo is not None else 0, hi)
        if ty is None:
            raise Missing(f"cannot bound quantified variable {what}")
        return self.enum_type(ty, scope)

    # -- state machines
    def sm(self, name):
        return self.sms[name]

    def smrel(self, sm, rel):
        import smexec
        return smexec.relation(self, sm, rel)

    def get(self, path):
        """Entity by path, e.g. 'abstract_system::MsgHistory_v::MsgHistory'."""
        r = self.resolve_abs(["crate"] + path.split("::"), self.root_module, set())
        if r is None:
            raise Missing(f"{path} not found in the sources")
        return r

    def call(self, path, *args):
        return self.fn(self.get(path))(*args)


def costly(e):
    """Does the expression contain a quantifier, a choice or a comprehension (worth remembering results of)?"""
    if isinstance(e, tuple):
        return bool(e) and e[0] in ("quant", "choose", "lambda") or any(costly(x) for x in e)
    return isinstance(e, list) and any(costly(x) for x in e)


def memo(py):
    """Remembers results for fully known arguments."""
    from smexec import ground
    table = {}

    def f(*a):
        for x in a:
            if not ground(x):
                return py(*a)
        try:
            r = table.get(a, table)
        except (TypeError, Unbound, Undef):
            return py(*a)
        if r is table:
            r = py(*a)
            if len(table) > 20000:
                table.clear()
            table[a] = r
        return r
    f.__src__ = py.__src__
    f.__wrapped__ = py
    return f


def flatten(lines):
    for ln in lines:
        if isinstance(ln, list):
            for x in flatten(ln):
                yield "  " + x
        else:
            yield ln


# ------------------------------------------------------------------------------------------------ code generation
class Gen:
    def __init__(self, crate, scope):
        self.crate = crate
        self.scope = scope
        self.types = {}
        self.expected = {}

    def fresh(self, base="v"):
        return f"{base}_{next(self.crate.counter)}"

    def const(self, value, base="K"):
        n = self.fresh(base)
        self.crate.ns[n] = value
        return n

    # expression compilers return a Python expression string; `out` receives statements (defs) to place before it.
    def expr(self, e, env, out):
        return getattr(self, "e_" + e[0])(e, env, out)

    def e_int(self, e, env, out):
        return repr(e[1])

    def e_bool(self, e, env, out):
        return "True" if e[1] else "False"

    def e_str(self, e, env, out):
        return repr(e[1])

    def e_path(self, e, env, out):
        segs = e[1]
        if len(segs) == 1 and segs[0] in env:
            return env[segs[0]]
        r = self.crate.resolve(segs, self.scope)
        return self.entity_value(r, segs)

    def entity_value(self, r, segs):
        c = self.crate
        if isinstance(r, tuple) and r[0] == "variant":
            cls = r[1].variants[r[2]]
            if not cls._fields:
                key = ("unit", cls)
                if not hasattr(cls, "_unit"):
                    cls._unit = c.ns_const(cls()) if hasattr(c, "ns_const") else self.const(cls(), "U")
                return cls._unit
            return self.const(cls, "V")
        if isinstance(r, Const):
            n = self.fresh("getc")
            c.ns[n] = lambda r=r: c.const_val(r)
            return f"{n}()"
        if isinstance(r, FnDecl) or (isinstance(r, tuple) and r[0] == "smrel"):
            return c.fname(r)
        if isinstance(r, TypeDef):
            cls = list(r.variants.values())[0]
            if not cls._fields:
                return self.const(cls(), "U")
            return self.const(cls, "V")
        if isinstance(r, Builtin):
            b = r.name
            if b.endswith("::MAX"):
                t = b.split("::")[0]
                w = 64 if t.endswith("size") else int(t[1:])
                return str(2 ** w - 1 if t[0] == "u" else 2 ** (w - 1) - 1)
            if b.endswith("::MIN"):
                return "0"
            if b in ("Map::empty", "Set::empty"):
                return "(lambda: " + BUILTIN_CALLS[b] + ")"
        if isinstance(r, tuple) and r[0] == "traitfn":
            return f"(lambda x, *a: x.m_{r[2]}(*a))"
        if segs[-1] == "unit":
            return "()"
        raise Missing(f"cannot resolve {'::'.join(segs)} in {self.scope.where()}")

    def e_field(self, e, env, out):
        x = self.expr(e[1], env, out)
        if e[2].isdigit():
            return f"r_tup({x}, {e[2]})"
        return f"{x}.{mangle(e[2])}"

    def e_arrow(self, e, env, out):
        x = self.expr(e[1], env, out)
        n = e[2]
        m = re.match(r"^([A-Z][A-Za-z0-9]*)_(.+)$", n)
        if m and not self.is_field(n):
            n = m.group(2)
        return f"{x}.{mangle(n)}"

    def is_field(self, n):
        return False

    def e_is(self, e, env, out):
        return f"r_is({self.expr(e[1], env, out)}, {e[2][-1]!r})"

    def e_view(self, e, env, out):
        return f"r_view({self.expr(e[1], env, out)})"

    def e_index(self, e, env, out):
        return f"{self.expr(e[1], env, out)}[{self.expr(e[2], env, out)}]"

    def e_un(self, e, env, out):
        x = self.expr(e[2], env, out)
        return f"(not {x})" if e[1] == "!" else f"(-{x})"

    def e_bin(self, e, env, out):
        a = self.expr(e[2], env, out)
        b = self.expr(e[3], env, out)
        op = e[1]
        if op == "/":
            return f"ediv({a}, {b})"
        if op == "%":
            return f"emod({a}, {b})"
        return f"({a} {op} {b})"

    def e_cmp(self, e, env, out):
        parts = e[1]
        vals = [self.expr(x, env, out) for x in parts[0::2]]
        ops = parts[1::2]
        res = []
        for i, op in enumerate(ops):
            py = {"===": "==", "=~=": "==", "=~~=": "==", "!==": "!=", "!~=": "!="}.get(op, op)
            res.append(f"({vals[i]} {py} {vals[i + 1]})")
        return res[0] if len(res) == 1 else "(" + " and ".join(res) + ")"

    def e_and(self, e, env, out):
        es = e[1]
        for i, x in enumerate(es):
            if x[0] == "matches" and i + 1 < len(es) and pat_vars(x[2]):
                rest = ("and", es[i + 1:]) if len(es) - i > 2 else es[i + 1]
                inner = ("iflet", x[2], x[1], rest, ("bool", False))
                lst = es[:i] + [inner]
                return "(" + " and ".join(self.expr(y, env, out) for y in lst) + ")"
        return "(" + " and ".join(self.expr(x, env, out) for x in es) + ")"

    def e_or(self, e, env, out):
        return "(" + " or ".join(self.expr(x, env, out) for x in e[1]) + ")"

    def e_imp(self, e, env, out):
        if e[1][0] == "matches" and pat_vars(e[1][2]):
            return self.expr(("iflet", e[1][2], e[1][1], e[2], ("bool", True)), env, out)
        if e[1][0] == "and" and any(x[0] == "matches" and pat_vars(x[2]) for x in e[1][1]):
            es = e[1][1]
            i = next(i for i, x in enumerate(es) if x[0] == "matches" and pat_vars(x[2]))
            rest = es[i + 1:]
            body = ("imp", ("and", rest), e[2]) if rest else e[2]
            inner = ("iflet", es[i][2], es[i][1], body, ("bool", True))
            if i:
                inner = ("imp", ("and", es[:i]), inner)
            return self.expr(inner, env, out)
        return f"((not {self.expr(e[1], env, out)}) or {self.expr(e[2], env, out)})"

    def e_iff(self, e, env, out):
        return f"(bool({self.expr(e[1], env, out)}) == bool({self.expr(e[2], env, out)}))"

    def e_if(self, e, env, out):
        f = self.expr(e[3], env, out) if e[3] is not None else "()"
        return f"({self.expr(e[2], env, out)} if {self.expr(e[1], env, out)} else {f})"

    def thunk(self, name, lines, out, params=""):
        out.append(f"def {name}({params}):")
        out.append(lines)

    def e_block(self, e, env, out):
        if not e[1]:
            return self.expr(e[2], env, out) if e[2] is not None else "()"
        n = self.fresh("b")
        lines = []
        env2 = dict(env)
        for pat, ty, x in e[1]:
            if x is None:
                continue
            v = self.expr(x, env2, lines)
            if pat[0] == "pbind":
                nv = self.fresh("l")
                lines.append(f"{nv} = {v}")
                env2 = dict(env2)
                env2[pat[1]] = nv
            elif pat[0] == "pwild":
                pass
            else:
                nv = self.fresh("l")
                lines.append(f"{nv} = {v}")
                env2 = dict(env2)
                self.bind_pattern(pat, nv, env2, lines)
        t = self.expr(e[2], env2, lines) if e[2] is not None else "()"
        lines.append(f"return {t}")
        self.thunk(n, lines, out)
        return f"{n}()"

    def bind_pattern(self, pat, v, env, lines):
        """Irrefutable binding: emits assignments."""
        for name, path in pat_paths(pat, v):
            nv = self.fresh("l")
            lines.append(f"{nv} = {path}")
            env[name] = nv

    def pat_test(self, pat, v):
        """Python test expression for a pattern on variable v (None when irrefutable)."""
        k = pat[0]
        if k in ("pwild", "pbind", "prest"):
            return None
        if k == "pat":
            return self.pat_test(pat[2], v)
        if k == "plit":
            return f"({v} == {pat[1]!r})"
        if k == "por":
            ts = [self.pat_test(p, v) for p in pat[1]]
            return None if any(t is None for t in ts) else "(" + " or ".join(ts) + ")"
        if k == "ptuple":
            ts = [self.pat_test(p, f"r_tup({v}, {i})") for i, p in enumerate(pat[1])]
            ts = [t for t in ts if t]
            return "(" + " and ".join(ts) + ")" if ts else None
        if k in ("pctor", "pstruct"):
            segs = pat[1]
            r = self.crate.resolve(segs, self.scope)
            if isinstance(r, Const):
                return f"({v} == {self.entity_value(r, segs)})"
            ts = []
            if isinstance(r, TypeDef) and not getattr(r, "is_enum", False):
                pass
            else:
                ts.append(f"r_is({v}, {segs[-1]!r})")
            if k == "pctor" and pat[2] is not None:
                for i, p in enumerate(pat[2]):
                    if p[0] == "prest":
                        break
                    t = self.pat_test(p, f"{v}.{mangle(self.pos_field(r, segs[-1], i))}")
                    if t:
                        ts.append(t)
            elif k == "pstruct":
                for f, p in pat[2]:
                    t = self.pat_test(p, f"{v}.{mangle(f)}")
                    if t:
                        ts.append(t)
            return "(" + " and ".join(ts) + ")" if ts else None
        raise Missing(f"pattern {k}")

    def pos_field(self, r, vname, i):
        """Name of the i-th positional field (state-machine Step constructors are positional over named fields)."""
        if isinstance(r, tuple) and r[0] == "variant":
            return r[1].variants[r[2]]._fields[i]
        return str(i)

    def bind_pattern2(self, pat, v, env, lines):
        for name, path in pat_paths(pat, v, self):
            nv = self.fresh("l")
            lines.append(f"{nv} = {path}")
            env[name] = nv

    def e_match(self, e, env, out):
        n = self.fresh("m")
        lines = []
        s = self.fresh("s")
        lines.append(f"{s} = {self.expr(e[1], env, lines)}")
        for pat, guard, body in e[2]:
            alts = pat[1] if pat[0] == "por" else [pat]
            for p in alts:
                t = self.pat_test(p, s) or "True"
                lines.append(f"if {t}:")
                sub = []
                env2 = dict(env)
                self.bind_pattern2(p, s, env2, sub)
                if guard is not None:
                    g = self.expr(guard, env2, sub)
                    sub.append(f"if {g}:")
                    sub2 = []
                    b = self.expr(body, env2, sub2)
                    sub2.append(f"return {b}")
                    sub.append(sub2)
                else:
                    b = self.expr(body, env2, sub)
                    sub.append(f"return {b}")
                lines.append(sub)
        lines.append(f"r_match_fail({s})")
        self.thunk(n, lines, out)
        return f"{n}()"

    def e_iflet(self, e, env, out):
        els = e[4] if e[4] is not None else ("tuple", [])
        return self.e_match(("match", e[2], [(e[1], None, e[3]), (("pwild",), None, els)]), env, out)

    def e_matches(self, e, env, out):
        n = self.fresh("m")
        lines = []
        s = self.fresh("s")
        lines.append(f"{s} = {self.expr(e[1], env, lines)}")
        lines.append(f"return {self.pat_test(e[2], s) or 'True'}")
        self.thunk(n, lines, out)
        return f"{n}()"

    def e_lambda(self, e, env, out):
        n = self.fresh("f")
        lines = []
        env2 = dict(env)
        ps = []
        for pat, ty in e[1]:
            v = self.fresh("p")
            ps.append(v)
            if pat[0] == "pbind":
                env2[pat[1]] = v
            elif pat[0] != "pwild":
                self.bind_pattern2(pat, v, env2, lines)
        b = self.expr(e[2], env2, lines)
        lines.append(f"return {b}")
        self.thunk(n, lines, out, ", ".join(ps))
        return n

    def e_tuple(self, e, env, out):
        if not e[1]:
            return "()"
        return "(" + ", ".join(self.expr(x, env, out) for x in e[1]) + ",)"

    def e_seqlit(self, e, env, out):
        return "Seq((" + "".join(self.expr(x, env, out) + ", " for x in e[1]) + "))"

    def e_repeat(self, e, env, out):
        return f"Seq(({self.expr(e[1], env, out)},) * {self.expr(e[2], env, out)})"

    def e_macro(self, e, env, out):
        if e[1] in ("seq", "vec"):
            return "Seq((" + "".join(self.expr(x, env, out) + ", " for x in e[2]) + "))"
        if e[1] == "set":
            return "FSet((" + "".join(self.expr(x, env, out) + ", " for x in e[2]) + "))"
        if e[1] == "map":
            return "FMap((" + "".join(f"({self.expr(k, env, out)}, {self.expr(v, env, out)}), " for k, v in e[2]) + "))"
        raise Missing(f"macro {e[1]}!")

    def e_cast(self, e, env, out):
        x = self.expr(e[1], env, out)
        t = e[2]
        if t[0] == "ty" and t[1][-1] in UNSIGNED:
            return f"nat({x})"
        return x

    def e_struct(self, e, env, out):
        segs = e[1]
        r = self.crate.resolve(segs, self.scope)
        if isinstance(r, Alias):
            r = self.crate.resolve_type(r.ty, r.scope)
        if isinstance(r, tuple) and r[0] == "variant":
            cls = r[1].variants[r[2]]
        elif isinstance(r, TypeDef):
            cls = list(r.variants.values())[0]
        else:
            raise Missing(f"cannot resolve struct {'::'.join(segs)} in {self.scope.where()}")
        td = cls._type
        for f, x in e[2]:
            for fn, ft in td.vfields.get(cls._variant, ()):
                if fn == f and td.scope is not None:
                    self.expect(x, ft, td.scope)
        fs = [(f, self.expr(x, env, out)) for f, x in e[2]]
        if e[3] is not None:
            b = self.expr(e[3], env, out)
            return f"{b}.with_(**{{" + ", ".join(f"{f!r}: {x}" for f, x in fs) + "})"
        names = {f for f, _ in fs}
        if names != set(cls._fields):
            raise Missing(f"fields of {'::'.join(segs)}: {names ^ set(cls._fields)}")
        return self.const(cls, "V") + "(" + ", ".join(f"{mangle(f)}={x}" for f, x in fs) + ")"

    def e_call(self, e, env, out):
        f, args = e[1], e[2]
        if f[0] == "path":
            segs = f[1]
            if len(segs) == 1 and segs[0] in env:
                return f"{env[segs[0]]}({', '.join(self.expr(a, env, out) for a in args)})"
            r = self.crate.resolve(segs, self.scope)
            b = None
            if isinstance(r, Builtin):
                b = r.name
            elif r is None:
                b = "::".join(segs)
            if b is not None:
                s = self.builtin(b, args, env, out, f)
                if s is not None:
                    return s
            if r is None and segs[-1] == "arbitrary":
                return f"Arb({next(self.crate.counter)})"
            v = self.entity_value(r, segs)
            return f"{v}({', '.join(self.expr(a, env, out) for a in args)})"
        if f[0] == "field" or f[0] == "arrow":
            return f"{self.expr(f, env, out)}({', '.join(self.expr(a, env, out) for a in args)})"
        return f"({self.expr(f, env, out)})({', '.join(self.expr(a, env, out) for a in args)})"

    def builtin(self, b, args, env, out, f):
        b = re.sub(r"^(vstd::)?(map|set|seq|multiset|prelude)::", "", b)
        if b in BUILTIN_CALLS:
            return BUILTIN_CALLS[b]
        if b in ("Map::new", "IMap::new"):
            return self.comprehension(args[0], args[1], env, out)
        if b in ("Set::new", "ISet::new"):
            return self.comprehension(args[0], None, env, out)
        if b == "Set::full":
            return self.const_full(f, out)
        if b == "Seq::new":
            return f"r_seqnew({self.expr(args[0], env, out)}, {self.expr(args[1], env, out)})"
        if b == "Multiset::singleton":
            return f"MSet({{{self.expr(args[0], env, out)}: 1}})"
        if b == "Multiset::new":
            return f"MSet({self.expr(args[0], env, out)}.d)"
        if b == "Multiset::from_map":
            return f"MSet({self.expr(args[0], env, out)}.d)"
        if b in ("Ghost", "Tracked", "Box::new", "Rc::new", "old", "Ghost::new"):
            return self.expr(args[0], env, out)
        if b == "equal" or b == "ext_equal":
            return f"({self.expr(args[0], env, out)} == {self.expr(args[1], env, out)})"
        if b in ("add", "sub", "mul") and len(args) == 2:
            op = {"add": "+", "sub": "-", "mul": "*"}[b]
            return f"({self.expr(args[0], env, out)} {op} {self.expr(args[1], env, out)})"
        if b.split("::")[-1] in ("max", "min") and len(args) == 2:
            return f"{b.split('::')[-1]}({self.expr(args[0], env, out)}, {self.expr(args[1], env, out)})"
        if b.split("::")[-1] == "spec_affirm":
            return self.expr(args[0], env, out)
        if re.match(r"^(Map|Set|Seq|Multiset)::", b):
            # UFCS on builtin containers
            m = b.split("::")[1]
            a = [self.expr(x, env, out) for x in args]
            return f"{a[0]}.m_{m}({', '.join(a[1:])})"
        return None

    def const_full(self, f, out):
        targs = f[2]
        if not targs:
            raise Missing("Set::full without type")
        ty = targs[0]
        n = self.fresh("full")
        c, sc = self.crate, self.scope
        c.ns[n] = lambda: FSet(c.enum_type(ty, sc))
        return f"{n}()"

    def comprehension(self, p, f, env, out):
        if p[0] != "lambda":
            raise Missing("comprehension over a function value")
        n = self.fresh("c")
        lines = []
        env2 = dict(env)
        (pat, ty), = p[1]
        fty = f[1][0][1] if f is not None and f[0] == "lambda" and f[1] else None
        if fty is None and ty is None and id(p) in self.expected and self.infer(p[2], pat[1] if pat[0] == "pbind" else None, env) is None:
            x = self.expected[id(p)]
            fty = ("#scoped", x[0], x[1])
        if fty is None and ty is None and f is not None and f[0] == "lambda" and f[1] and f[1][0][0][0] == "pbind":
            fty = self.infer(f[2], f[1][0][0][1], env)
        v = self.fresh("x")
        if pat[0] == "pbind":
            env2[pat[1]] = v
            g = self.domain(p[2], pat[1], env, lines, True, ty or fty)
        else:
            self.crate
            g = self.domain(p[2], None, env, lines, True, ty or fty)
        lines.append("acc = []")
        lines.append(f"for {v} in r_iter({g}):")
        body = []
        if pat[0] != "pbind":
            self.bind_pattern2(pat, v, env2, body)
        c = self.expr(p[2], env2, body)
        body.append("try:")
        body.append([f"ok = {c}"])
        body.append("except Undef: ok = False")
        if f is None:
            body.append(f"if ok: acc.append({v})")
        else:
            fl = self.expr(f, env, lines0 := [])
            lines[0:0] = lines0
            body.append(f"if ok: acc.append(({v}, {fl}({v})))")
        lines.append(body)
        lines.append("return FSet(acc)" if f is None else "return FMap(acc)")
        self.thunk(n, lines, out)
        return f"{n}()"

    def domain(self, body, name, env, lines, want, ty):
        """Python expression for the concrete domain of variable `name`."""
        g = None
        if name is not None:
            g = self.guard(body, name, env, lines, want, ty)
            if ty is None:
                ty = self.infer(body, name, env)
        tn = self.const((ty, self.scope), "T")
        what = f"{name} in {self.scope.where()}"
        return f"crate.dom({g or 'None'}, {tn}[0], {tn}[1], {what!r})"

    # -- light static typing, used to find the universe of an unannotated bound variable
    def norm(self, ty, scope):
        """(type AST with aliases unfolded, scope) or None."""
        for _ in range(20):
            if not isinstance(ty, tuple) or ty[0] != "ty":
                return None
            if ty[1] == ["Self"] and scope.self_type is not None:
                return scope.self_type, scope
            r = self.crate.resolve(ty[1], scope)
            if not isinstance(r, Alias):
                return ty, scope
            ty, scope = r.ty, r.scope
        return None

    def tdef(self, t):
        if t is None:
            return None
        if isinstance(t[0], TypeDef):
            return t[0]
        r = self.crate.resolve(t[0][1], t[1])
        return r if isinstance(r, TypeDef) else None

    def typeof(self, e, env):
        k = e[0]
        if k == "path" and len(e[1]) == 1:
            n = e[1][0]
            if n == "self" and self.scope.self_type is not None:
                return self.scope.self_type, self.scope
            v = env.get(n)
            t = self.types.get(v)
            return None if t is None else self.norm(t, self.scope) if not (isinstance(t, tuple) and t and t[0] == "#") else t[1]
        if k in ("field", "arrow"):
            d = self.tdef(self.typeof(e[1], env))
            if d is not None:
                for fs in d.vfields.values():
                    for fn, ft in fs:
                        if fn == e[2]:
                            return self.norm(ft, d.scope or self.scope)
            return None
        if k == "index":
            t = self.typeof(e[1], env)
            if t is not None and not isinstance(t[0], TypeDef) and t[0][1][-1] in ("Map", "Seq", "IMap") and t[0][2]:
                return self.norm(t[0][2][-1], t[1])
            return None
        if k == "mcall":
            t = self.typeof(e[1], env)
            if t is None:
                return None
            if not isinstance(t[0], TypeDef) and t[0][1][-1] in ("Map", "IMap") and len(t[0][2]) == 2:
                if e[2] == "dom":
                    return ("ty", ["Set"], [t[0][2][0]]), t[1]
                if e[2] == "values":
                    return ("ty", ["Set"], [t[0][2][1]]), t[1]
                if e[2] in ("insert", "remove", "restrict", "union_prefer_right", "remove_keys"):
                    return t
                return None
            if not isinstance(t[0], TypeDef) and t[0][1][-1] in ("Set", "ISet", "Seq"):
                return t if e[2] in ("insert", "remove", "union", "intersect", "difference", "filter", "subrange", "push", "update", "drop_first", "drop_last") else None
            d = self.tdef(t)
            if d is not None:
                for f in self.crate.fn_by_name.get(e[2], []):
                    if f.scope.self_type is d and f.ret is not None:
                        return self.norm(f.ret, f.scope)
        return None

    def expect(self, e, ty, scope):
        """Records the type expected of the comprehensions in e."""
        if e is None or ty is None:
            return
        k = e[0]
        if k == "call" and e[1][0] == "path" and e[1][1][-2:] in (["Map", "new"], ["Set", "new"], ["IMap", "new"], ["ISet", "new"]):
            t = self.norm(ty, scope)
            if t is not None and not isinstance(t[0], TypeDef) and t[0][2]:
                self.expected[id(e[2][0])] = (t[0][2][0], t[1])
        elif k == "block":
            self.expect(e[2], ty, scope)
            for pat, lty, x in e[1]:
                if lty is not None and x is not None:
                    self.expect(x, lty, self.scope)
        elif k == "if":
            self.expect(e[2], ty, scope)
            self.expect(e[3], ty, scope)

    def infer(self, e, name, env=None):
        """Type of an unannotated bound variable from the functions it is passed to."""
        found = []
        var = ("path", [name], [])

        def walk(x):
            if isinstance(x, tuple) and x:
                if env is not None and not found:
                    if x[0] == "mcall" and x[2] in ("contains", "contains_key", "remove", "insert") and x[4] and x[4][0] == var or x[0] == "index" and x[2] == var:
                        t = self.typeof(x[1], env)
                        if t is not None and not isinstance(t[0], TypeDef) and t[0][2] and t[0][1][-1] != "Seq" or \
                           t is not None and not isinstance(t[0], TypeDef) and t[0][2] and x[2] == "contains":
                            found.append(("#scoped", t[0][2][0], t[1]))
                    if x[0] == "mcall" and x[2] == "contains_value" and x[4] and x[4][0] == var:
                        t = self.typeof(x[1], env)
                        if t is not None and not isinstance(t[0], TypeDef) and len(t[0][2]) == 2:
                            found.append(("#scoped", t[0][2][1], t[1]))
                if x[0] == "mcall":
                    for i, a in enumerate(x[4]):
                        if a == ("path", [name], []):
                            tys = []
                            for f in self.crate.fn_by_name.get(x[2], []):
                                off = 1 if f.is_method() else 0
                                if i + off < len(f.params) and len(f.params) == len(x[4]) + off:
                                    tys.append(f.params[i + off][1])
                            if tys and all(t == tys[0] for t in tys):
                                found.append(tys[0])
                    if x[1] == ("path", [name], []):
                        fs = [f for f in self.crate.fn_by_name.get(x[2], []) if f.is_method() and f.scope.self_type]
                        ts = {f.scope.self_type.name for f in fs}
                        if len(ts) == 1:
                            found.append(("ty", [ts.pop()], []))
                elif x[0] == "call" and x[1][0] == "path":
                    r = self.crate.resolve(x[1][1], self.scope)
                    if isinstance(r, FnDecl):
                        for i, a in enumerate(x[2]):
                            if a == ("path", [name], []) and i < len(r.params):
                                found.append(r.params[i][1])
                for y in x[1:]:
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(e)
        return found[0] if found else None

    def e_quant(self, e, env, out):
        kind, vs, body = e[1], e[2], e[3]
        if kind == "choose":
            n = self.fresh("ch")
            lines = []
            names = [p[1] if p[0] == "pbind" else None for p, _ in vs]
            env2 = dict(env)
            depth = lines
            pv = []
            rest = list(vs)
            bound = dict(env)
            for pat, ty in self.order(rest, body, env, True):
                v = self.fresh("x")
                g = self.domain(body, pat[1], bound, depth, True, ty)
                depth.append(f"for {v} in sorted(r_iter({g}), key=sort_key):")
                sub = []
                depth.append(sub)
                depth = sub
                bound = dict(bound)
                bound[pat[1]] = v
                pv.append((pat[1], v))
            c = self.expr(body, bound, depth)
            depth.append("try:")
            depth.append([f"ok = {c}"])
            depth.append("except Undef: ok = False")
            vals = [dict(pv)[nm] for nm in names]
            depth.append(f"if ok: return {vals[0] if len(vals) == 1 else '(' + ', '.join(vals) + ',)'}")
            lines.append(f"return Arb(('choose', {next(self.crate.counter)}))")
            self.thunk(n, lines, out)
            return f"{n}()"
        n = self.fresh("q")
        lines = []
        depth = lines
        bound = dict(env)
        want = kind == "exists"
        for pat, ty in self.order(list(vs), body, env, want):
            v = self.fresh("x")
            if pat[0] == "pbind":
                g = self.domain(body, pat[1], bound, depth, want, ty)
            else:
                g = self.domain(body, None, bound, depth, want, ty)
            depth.append(f"for {v} in r_iter({g}):")
            sub = []
            depth.append(sub)
            depth = sub
            bound = dict(bound)
            if pat[0] == "pbind":
                bound[pat[1]] = v
            else:
                self.bind_pattern2(pat, v, bound, depth)
        c = self.expr(body, bound, depth)
        if kind == "exists":
            depth.append("try:")
            depth.append([f"ok = {c}"])
            depth.append("except Undef: ok = False")
            depth.append("if ok: return True")
            lines.append("return False")
        else:
            depth.append(f"if not {c}: return False")
            lines.append("return True")
        self.thunk(n, lines, out)
        return f"{n}()"

    def order(self, vs, body, env, want):
        """Order quantified variables so that those with a generator over already-bound ones come first."""
        rest, res = list(vs), []
        bound = set(env)
        while rest:
            pick = None
            for i, (pat, ty) in enumerate(rest):
                if pat[0] != "pbind":
                    continue
                fake = {b: "_" for b in bound}
                if self.guard(body, pat[1], fake, [], want, ty) is not None:
                    pick = i
                    break
            if pick is None:
                pick = 0
            pat, ty = rest.pop(pick)
            res.append((pat, ty))
            if pat[0] == "pbind":
                bound.add(pat[1])
        return res

    # -- generators
    def guard(self, e, x, env, lines, want, ty=None):
        """Python expression (or None) for a superset of the values of variable x for which e evaluates to `want`.
        env binds the variables that may be used."""
        k = e[0]
        if k == "block":
            if e[2] is None:
                return None
            env2 = dict(env)
            ls = []
            for pat, t, v in e[1]:
                if v is None:
                    continue
                if free(v) - set(env2) - GLOBALISH and self.uses_unbound(v, env2, x):
                    for nme in pat_vars(pat):
                        env2.pop(nme, None)
                    continue
                val = self.expr(v, env2, lines)
                nv = self.fresh("l")
                lines.append(f"try: {nv} = {val}")
                lines.append(f"except (Undef, AttributeError): {nv} = Arb(0)")
                if pat[0] == "pbind":
                    env2[pat[1]] = nv
                else:
                    for nme in pat_vars(pat):
                        env2.pop(nme, None)
            return self.guard(e[2], x, env2, lines, want, ty)
        if k == "un" and e[1] == "!":
            return self.guard(e[2], x, env, lines, not want, ty)
        if k in ("and", "or"):
            any_ = (k == "and") == want
            gs = [self.guard(y, x, env, lines, want, ty) for y in e[1]]
            return self.combine(gs, any_)
        if k == "imp":
            a = self.guard(e[1], x, env, lines, not want, ty)
            b = self.guard(e[2], x, env, lines, want, ty)
            return self.combine([a, b], not want)
        if k == "iff":
            if not want:
                return self.combine([self.guard(e[1], x, env, lines, True, ty), self.guard(e[2], x, env, lines, True, ty)], False)
            return None
        if k == "if":
            c, a, b = e[1], e[2], e[3]
            if b is None:
                return None
            g1 = self.combine([self.guard(c, x, env, lines, True, ty), self.guard(a, x, env, lines, want, ty)], True)
            g2 = self.combine([self.guard(c, x, env, lines, False, ty), self.guard(b, x, env, lines, want, ty)], True)
            return self.combine([g1, g2], False)
        if k == "cmp":
            return self.guard_cmp(e, x, env, lines, want)
        if k == "bool":
            return "[]" if e[1] != want else None
        if k == "quant":
            if e[1] == "exists" and want or e[1] == "forall" and not want:
                env2 = {n: v for n, v in env.items() if n not in {p[1] for p, _ in e[2] if p[0] == "pbind"}}
                return self.guard(e[3], x, env2, lines, want, ty)
            return None
        if k == "matches" and False:
            return None
        if k in ("mcall", "call"):
            return self.guard_call(e, x, env, lines, want, ty)
        return None

    def combine(self, gs, any_):
        if any_:
            gs = [g for g in gs if g is not None]
            if not gs:
                return None
            return gs[0] if len(gs) == 1 else "r_any(" + ", ".join(f"lambda: {g}" for g in gs) + ")"
        if any(g is None for g in gs):
            return None
        return "r_union(" + ", ".join(f"lambda: {g}" for g in gs) + ")"

    def uses_unbound(self, e, env, x):
        """True when e mentions a variable that is neither bound in env nor a global name."""
        for n in free(e):
            if n in env:
                continue
            if n == x:
                return True
            if self.crate.resolve([n], self.scope) is None:
                return True
        return False

    def guard_cmp(self, e, x, env, lines, want):
        parts = e[1]
        gs = []
        for i in range(0, len(parts) - 2, 2):
            a, op, b = parts[i], parts[i + 1], parts[i + 2]
            gs.append(self.guard_cmp1(a, op, b, x, env, lines, want))
        return self.combine(gs, want)

    def guard_cmp1(self, a, op, b, x, env, lines, want):
        eqs = ("==", "===", "=~=", "=~~=")
        nes = ("!=", "!==", "!~=")
        if not want:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(op, "!=" if op in eqs else "==" if op in nes else op)
        if op in nes:
            return None
        X = ("path", [x], [])

        def strip(t):
            while t[0] == "cast":
                t = t[1]
            return t
        a, b = strip(a), strip(b)
        if b == X and a != X:
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        # x + c < e
        off = 0
        if a != X and a[0] == "bin" and a[1] in ("+", "-") and strip(a[2]) == X and a[3][0] == "int":
            off = a[3][1] if a[1] == "+" else -a[3][1]
            a = X
        elif b[0] == "bin" and b[1] in ("+", "-") and strip(b[2]) == X and b[3][0] == "int":
            off = b[3][1] if b[1] == "+" else -b[3][1]
            a, b = X, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if a == X:
            if x in free(b) or self.uses_unbound(b, env, x):
                return None
            v = self.expr(b, env, lines)
            if off:
                v = f"({v} - {off})"
            if op in eqs:
                return f"[{v}]"
            if op == "<":
                return f"rng_hi({v})"
            if op == "<=":
                return f"rng_hi({v} + 1)"
            if op == ">=":
                return f"rng_lo({v})"
            if op == ">":
                return f"rng_lo({v} + 1)"
        if op in eqs:
            # M[x] == e with M known: x ranges over M's domain (outside it the lookup is unspecified)
            for s, o in ((a, b), (b, a)):
                g = self.weak(s, x, env, lines)
                if g:
                    return g
        return None

    def weak(self, e, x, env, lines):
        while e[0] in ("field", "arrow"):
            e = e[1]
        if e[0] == "mcall" and not e[4]:
            return self.weak(e[1], x, env, lines)
        if e[0] == "index" and e[2] == ("path", [x], []) and not self.uses_unbound(e[1], env, x):
            return f"{self.expr(e[1], env, lines)}.m_dom()"
        return None

    def guard_call(self, e, x, env, lines, want, ty):
        X = ("path", [x], [])

        def isx(a):
            while a[0] in ("cast", "view"):
                a = a[1]
            return a == X
        if e[0] == "mcall":
            recv, name, args = e[1], e[2], e[4]
            pos = [i for i, a in enumerate(args) if isx(a)]
            if isx(recv) and name in self.crate.call_gens:
                pass
            if not pos:
                # (S.contains(f(x))) and friends give no generator
                if want and name in ("contains", "contains_key") and len(args) == 1 and not self.uses_unbound(recv, env, x):
                    inv = self.invert(args[0], x, env, lines)
                    if inv:
                        r = self.expr(recv, env, lines)
                        return inv.replace("$S", r)
                return None
            if self.uses_unbound(recv, env, x):
                return None
            r = self.expr(recv, env, lines)
            i = pos[0]
            argl = []
            for j, a in enumerate(args):
                if j == i:
                    argl.append("None")
                elif self.uses_unbound(a, env, x):
                    argl.append("UNB")
                else:
                    argl.append(self.expr(a, env, lines))
            self.crate.ns.setdefault("UNB", UNB)
            self.crate.ns.setdefault("g_method", self.crate.g_method)
            return f"g_method({r}, {name!r}, {i}, [{', '.join(argl)}], {want})"
        if e[0] == "call" and e[1][0] == "path":
            if len(e[1][1]) == 1 and e[1][1][0] in env:
                return None
            f = self.crate.resolve(e[1][1], self.scope)
            args = e[2]
            pos = [i for i, a in enumerate(args) if isx(a)]
            if not isinstance(f, FnDecl) or not pos:
                return None
            argl = []
            i = pos[0]
            for j, a in enumerate(args):
                if j == i:
                    argl.append("None")
                elif self.uses_unbound(a, env, x):
                    argl.append("UNB")
                else:
                    argl.append(self.expr(a, env, lines))
            self.crate.ns.setdefault("UNB", UNB)
            self.crate.ns.setdefault("g_fn", self.crate.g_fn)
            k = self.const(f, "D")
            return f"g_fn({k}, {i}, [{', '.join(argl)}], {want})"
        return None

    def invert(self, a, x, env, lines):
        """S.contains(a(x)): values of x from the members of S, when a is a constructor or pair around x or x's projection."""
        X = ("path", [x], [])
        if a[0] == "tuple":
            for i, y in enumerate(a[1]):
                if y == X:
                    return f"[m[{i}] for m in $S]"
        if a[0] == "struct" and a[3] is None:
            for f, y in a[2]:
                if y == X:
                    return f"[m.{mangle(f)} for m in $S if hasattr(m, {mangle(f)!r})]"
        if a[0] == "call" and a[1][0] == "path":
            r = self.crate.resolve(a[1][1], self.scope)
            if isinstance(r, (TypeDef,)) or (isinstance(r, tuple) and r[0] == "variant"):
                for i, y in enumerate(a[2]):
                    if y == X:
                        return f"[m.f_{i} for m in $S if hasattr(m, 'f_{i}')]"
        if a[0] == "bin" and a[1] in ("+", "-") and a[2] == X and a[3][0] == "int":
            op = "-" if a[1] == "+" else "+"
            return f"[m {op} {a[3][1]} for m in $S]"
        return None


class _Unb:
    pass


UNB = _Unb()
GLOBALISH = set()


def g_method(self, recv, name, idx, args, want):
    if isinstance(recv, LVar):
        raise Unbound()
    if want:
        if name in ("contains", "contains_key", "spec_contains", "has") and not isinstance(recv, Data):
            if isinstance(recv, (FSet, FMap, MSet)):
                return list(recv.d) if isinstance(recv, MSet) else recv
            if isinstance(recv, Seq):
                return set(recv)
            return None
        if name == "contains_value" and isinstance(recv, FMap):
            return set(recv.d.values())
        if name == "contains_pair" and isinstance(recv, FMap):
            if idx == 0:
                return recv
            return set(recv.d.values())
    h = self.call_gens.get(name)
    if h is not None:
        g = h(recv, args, idx, want)
        if g is not None:
            return g
    if isinstance(recv, Data):
        f = recv._type.fns.get(name)
        if isinstance(f, FnDecl):
            return g_fn(self, f, idx + 1, [recv] + args, want)
    return None


def g_fn(self, f, idx, args, want):
    if any(a is UNB for a in args):
        return None
    g = self.gen_fn(f, idx, want)
    if g is None:
        return None
    return g(*args)


Crate.g_method = g_method
Crate.g_fn = g_fn


def pat_vars(p):
    k = p[0]
    if k == "pbind":
        return [p[1]]
    if k == "pat":
        return [p[1]] + pat_vars(p[2])
    if k == "pctor":
        return [v for q in (p[2] or []) for v in pat_vars(q)]
    if k == "pstruct":
        return [v for _, q in p[2] for v in pat_vars(q)]
    if k == "ptuple":
        return [v for q in p[1] for v in pat_vars(q)]
    if k == "por":
        return pat_vars(p[1][0])
    return []


def pat_paths(p, v, gen=None):
    """(variable, access path) pairs of a pattern."""
    k = p[0]
    if k == "pbind":
        yield p[1], v
    elif k == "pat":
        yield p[1], v
        yield from pat_paths(p[2], v, gen)
    elif k == "pctor":
        r = gen.crate.resolve(p[1], gen.scope) if gen else None
        for i, q in enumerate(p[2] or []):
            if q[0] == "prest":
                break
            fn = gen.pos_field(r, p[1][-1], i) if gen else str(i)
            yield from pat_paths(q, f"{v}.{mangle(fn)}", gen)
    elif k == "pstruct":
        for f, q in p[2]:
            yield from pat_paths(q, f"{v}.{mangle(f)}", gen)
    elif k == "ptuple":
        for i, q in enumerate(p[1]):
            yield from pat_paths(q, f"r_tup({v}, {i})", gen)


_free_cache = {}


def free(e):
    """Names that occur as single-segment value paths in e (an over-approximation of its free variables)."""
    key = id(e)
    r = _free_cache.get(key)
    if r is not None and r[0] is e:
        return r[1]
    out = set()

    def walk(x, hidden):
        if isinstance(x, list):
            for y in x:
                walk(y, hidden)
            return
        if not isinstance(x, tuple) or not x:
            return
        k = x[0]
        if k == "path" and isinstance(x[1], list):
            if len(x[1]) == 1 and x[1][0] not in hidden:
                out.add(x[1][0])
            return
        if k == "lambda":
            h = hidden | {n for p, _ in x[1] for n in pat_vars(p)}
            walk(x[2], h)
            return
        if k == "quant":
            h = hidden | {n for p, _ in x[2] for n in pat_vars(p)}
            walk(x[3], h)
            return
        if k == "block":
            h = set(hidden)
            for p, t, v in x[1]:
                if v is not None:
                    walk(v, h)
                h |= set(pat_vars(p))
            if x[2] is not None:
                walk(x[2], h)
            return
        if k == "match":
            walk(x[1], hidden)
            for p, g, b in x[2]:
                h = hidden | set(pat_vars(p))
                if g is not None:
                    walk(g, h)
                walk(b, h)
            return
        if k == "iflet":
            walk(x[2], hidden)
            walk(x[3], hidden | set(pat_vars(x[1])))
            if x[4] is not None:
                walk(x[4], hidden)
            return
        if k == "matches":
            walk(x[1], hidden)
            return
        if k in ("and", "or"):
            h = set(hidden)
            for y in x[1]:
                walk(y, h)
                if y[0] == "matches":
                    h |= set(pat_vars(y[2]))
            return
        if k == "imp":
            walk(x[1], hidden)
            h = set(hidden)
            for y in ([x[1]] if x[1][0] == "matches" else x[1][1] if x[1][0] == "and" else []):
                if y[0] == "matches":
                    h |= set(pat_vars(y[2]))
            walk(x[2], h)
            return
        if k == "cmp":
            for y in x[1]:
                if isinstance(y, tuple):
                    walk(y, hidden)
            return
        if k == "is":
            walk(x[1], hidden)
            return
        if k == "struct":
            for _, y in x[2]:
                walk(y, hidden)
            if x[3] is not None:
                walk(x[3], hidden)
            return
        if k == "mcall":
            walk(x[1], hidden)
            walk(x[4], hidden)
            return
        if k == "macro":
            for y in x[2]:
                if isinstance(y, tuple) and y and isinstance(y[0], tuple):
                    walk(y[0], hidden)
                    walk(y[1], hidden)
                else:
                    walk(y, hidden)
            return
        if k == "cast":
            walk(x[1], hidden)
            return
        for y in x[1:]:
            if isinstance(y, (tuple, list)):
                walk(y, hidden)
    walk(e, frozenset())
    _free_cache[key] = (e, out)
    return out


def e_mcall(self, e, env, out):
    recv, name, args = e[1], e[2], e[4]
    r = self.expr(recv, env, out)
    a = ", ".join(self.expr(x, env, out) for x in args)
    m = re.match(r"^(arrow|get)_(.+)$", name)
    if m and not args and name not in self.crate.fn_by_name:
        rest = m.group(2)
        mm = re.match(r"^([A-Z][A-Za-z0-9]*)_(.+)$", rest)
        f = mm.group(2) if mm else rest
        return f"r_tup({r}, {f})" if f.isdigit() else f"{r}.{mangle(f)}"
    m = re.match(r"^is_([A-Z][A-Za-z0-9]*)$", name)
    if m and not args and name not in self.crate.fn_by_name:
        return f"r_is({r}, {m.group(1)!r})"
    if name in ("clone", "ghost") and not args:
        return r
    if name in ("view",) and not args:
        return f"r_view({r})"
    if name == "invert" and not args:
        return f"FMap((vv, kk) for kk, vv in sorted({r}.d.items(), key=sort_key, reverse=True))"
    return f"{r}.m_{name}({a})"


Gen.e_mcall = e_mcall
