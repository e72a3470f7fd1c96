"""Loads Dafny sources and runs them: methods and compiled functions as the C++ back end would, ghost functions and
predicates over finite domains.

Linear values are plain immutable values (an `inout` argument is returned to the caller), so states of the implementation
can be kept, compared and explored like states of a specification.  Ghost variables, fields and arguments of compiled
code are not computed (None); proofs are skipped.
"""
import os

from dfy_parse import parse_file
from rt import Missing, Undef


class DfyError(Exception):
    pass


# ---------------------------------------------------------------- values
class Data:
    __slots__ = ("h_",)
    tag = None
    fields_ = ()
    pyf_ = ()
    ghost_ = ()

    def __getitem__(self, i):
        return getattr(self, self.pyf_[i])

    def args_(self):
        return tuple(getattr(self, f) for f in self.pyf_)

    def __eq__(self, o):
        if self is o:
            return True
        if self.__class__ is not o.__class__:
            return False
        for f in self.cmp_:
            if getattr(self, f) != getattr(o, f):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        h = getattr(self, "h_", None)
        if h is None:
            h = hash((self.tag,) + tuple(getattr(self, f) for f in self.cmp_))
            self.h_ = h
        return h

    def __repr__(self):
        return self.tag + ("(" + ", ".join(f"{n}={getattr(self, f)!r}" for n, f in zip(self.fields_, self.pyf_)) + ")" if self.pyf_ else "")

    def __reduce__(self):
        return _mk, (self.idx_, self.args_())

    def upd_(self, **kw):
        r = self.__class__.__new__(self.__class__)
        r.h_ = None
        for f in self.pyf_:
            setattr(r, f, kw[f] if f in kw else getattr(self, f))
        return r

    def __len__(self):
        op = getattr(self, "op_card_", None)
        if op is None:
            raise Undef("cardinality of " + self.tag)
        return op(self)


class Obj:
    """an instance of a class"""

    def __init__(self, cls):
        self.__dict__["cls_"] = cls

    def __getattr__(self, n):
        if n.startswith("m_"):
            f = self.cls_.pymember(n)
            if f is not None:
                import functools
                return functools.partial(f, self)
        if n.startswith("f_"):
            c = self.cls_.const_member(n)
            if c is not None:
                return c(self)
        raise AttributeError(n)


class Arr:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    @property
    def f_Length(self):
        return len(self.a)

    def __getitem__(self, i):
        if i.__class__ is slice:
            return tuple(self.a[i])
        return self.a[i]

    def __repr__(self):
        return f"Arr({self.a!r})"


_classes = []


def _mk(i, args):
    return _classes[i](*args)


class DSet(frozenset):
    def __add__(self, o):
        return DSet(frozenset.__or__(self, o))

    def __sub__(self, o):
        if isinstance(o, ISet):
            return DSet(x for x in self if x not in o)
        return DSet(frozenset.__sub__(self, o))

    def __mul__(self, o):
        if isinstance(o, ISet):
            return DSet(x for x in self if x in o)
        return DSet(frozenset.__and__(self, o))

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"


class ISet:
    """a possibly infinite set, given by its membership test"""

    def __init__(self, p):
        self.p = p

    def __contains__(self, x):
        return bool(self.p(x))

    def __add__(self, o):
        return ISet(lambda x: x in self or x in o)

    def __mul__(self, o):
        return ISet(lambda x: x in self and x in o)

    def __sub__(self, o):
        return ISet(lambda x: x in self and x not in o)


class DMap:
    __slots__ = ("d", "h")

    def __init__(self, d=()):
        self.d = dict(d)
        self.h = None

    def __getitem__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise Undef(f"key {k!r} not in map")

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __eq__(self, o):
        return isinstance(o, DMap) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __repr__(self):
        return "map" + repr(self.d)

    @property
    def f_Keys(self):
        return DSet(self.d)

    @property
    def f_Values(self):
        return DSet(self.d.values())

    @property
    def f_Items(self):
        return DSet(self.d.items())

    def __add__(self, o):
        r = DMap(self.d)
        r.d.update(o.d)
        return r

    def __sub__(self, ks):
        return DMap({k: v for k, v in self.d.items() if k not in ks})


class MSet:
    __slots__ = ("d",)

    def __init__(self, d=()):
        self.d = {k: v for k, v in dict(d).items() if v}

    @staticmethod
    def of(it):
        d = {}
        for x in it:
            d[x] = d.get(x, 0) + 1
        return MSet(d)

    def __getitem__(self, k):
        return self.d.get(k, 0)

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        for k, n in self.d.items():
            for _ in range(n):
                yield k

    def __len__(self):
        return sum(self.d.values())

    def __eq__(self, o):
        return isinstance(o, MSet) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __add__(self, o):
        d = dict(self.d)
        for k, n in o.d.items():
            d[k] = d.get(k, 0) + n
        return MSet(d)

    def __sub__(self, o):
        return MSet({k: max(0, n - o[k]) for k, n in self.d.items()})

    def __mul__(self, o):
        return MSet({k: min(n, o[k]) for k, n in self.d.items()})

    def __le__(self, o):
        return all(n <= o[k] for k, n in self.d.items())

    def __lt__(self, o):
        return self <= o and self != o

    def __repr__(self):
        return "multiset" + repr(self.d)


class BV(int):
    """a bit vector"""
    w = 64

    @staticmethod
    def of(w, v):
        return _bv(w)(int(v) & ((1 << w) - 1))

    def _c(self, v):
        return self.__class__(v & ((1 << self.w) - 1))

    def __and__(self, o):
        return self._c(int(self) & int(o))

    def __or__(self, o):
        return self._c(int(self) | int(o))

    def __xor__(self, o):
        return self._c(int(self) ^ int(o))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        return self._c(int(self) << int(o)) if o < 4096 else self._c(0)

    def __rshift__(self, o):
        return self._c(int(self) >> int(o)) if o < 4096 else self._c(0)

    def __add__(self, o):
        return self._c(int(self) + int(o))

    def __sub__(self, o):
        return self._c(int(self) - int(o))

    def __mul__(self, o):
        return self._c(int(self) * int(o))

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, o):
        return self._c(int(o) - int(self))

    def __invert__(self):
        return self._c(~int(self))


_bvs = {}


def _bv(w):
    c = _bvs.get(w)
    if c is None:
        c = _bvs[w] = type(f"BV{w}", (BV,), {"w": w})
    return c


class Ghost:
    """a value of a type nothing is known about"""


# ---------------------------------------------------------------- runtime helpers of the generated code
def rt_bv0(w):
    return BV.of(w, 0)


def rt_not(x):
    if isinstance(x, BV):
        return ~x
    return not x


def rt_neg(x):
    return -x


def rt_idx(s, i):
    if i.__class__ is int and i < 0 and s.__class__ is not DMap and s.__class__ is not MSet:
        raise Undef("negative index")
    try:
        return s[i]
    except IndexError:
        raise Undef(f"index {i} out of {len(s)}")
    except TypeError:
        op = getattr(s, "op_index_", None)
        if op is None:
            raise
        return op(s, i)


def rt_slice(s, a, b):
    if isinstance(s, Data):
        return s.op_slice_(a, b)
    n = len(s.a) if s.__class__ is Arr else len(s)
    a = 0 if a is None else int(a)
    b = n if b is None else int(b)
    if not 0 <= a <= b <= n:
        raise Undef(f"slice {a}..{b} of {n}")
    return s[a:b]


def rt_upd(s, i, v):
    if s.__class__ is tuple:
        if not 0 <= i < len(s):
            raise Undef(f"update at {i} of {len(s)}")
        return s[:i] + (v,) + s[i + 1:]
    if s.__class__ is DMap:
        r = DMap(s.d)
        r.d[i] = v
        return r
    if s.__class__ is MSet:
        d = dict(s.d)
        d[i] = v
        return MSet(d)
    if s.__class__ is IMap:
        return s.upd(i, v)
    raise Undef("update")


def rt_setidx(s, i, v):
    if s.__class__ is Arr:
        if not 0 <= i < len(s.a):
            raise Undef(f"array index {i} of {len(s.a)}")
        s.a[i] = v
        return s
    return rt_upd(s, i, v)


def rt_setf(b, f, v):
    if isinstance(b, Data):
        return b.upd_(**{f: v})
    setattr(b, f, v)
    return b


def rt_lt(a, b):
    if a.__class__ is tuple:
        return len(a) < len(b) and b[:len(a)] == a
    return a < b


def rt_le(a, b):
    if a.__class__ is tuple:
        return len(a) <= len(b) and b[:len(a)] == a
    return a <= b


def rt_disjoint(a, b):
    if isinstance(a, frozenset):
        return a.isdisjoint(b)
    return not any(x in b for x in a)


def rt_div(a, b):
    if b == 0:
        raise Undef("division by zero")
    if isinstance(a, int) and isinstance(b, int):
        q = int(a) // int(b) if b > 0 else -(int(a) // -int(b))
        return a._c(q) if isinstance(a, BV) else q
    return a / b


def rt_mod(a, b):
    if b == 0:
        raise Undef("modulo zero")
    r = int(a) % abs(int(b))
    return a._c(r) if isinstance(a, BV) else r


def rt_seq(n, f):
    return tuple(f(i) for i in range(n))


def rt_iter(s):
    if s.__class__ is Arr:
        return s.a
    if isinstance(s, MSet):
        return iter(s.d)
    return s


def rt_multiset(s):
    return MSet.of(s)


def rt_call(f, *a):
    return f(*a)


def rt_new_lvalue(*a):
    raise Undef("assignment")


def rt_nomatch(v):
    raise Undef(f"no case for {v!r}")


def rt_such(it):
    for x in it:
        return x
    raise Undef("no value such that")


def rt_eq1(x):
    return (x,)


def rt_inter(lo, hi):
    return range(lo, hi)


class IMap(DMap):
    pass


INTS = {"byte": 8, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint128": 128, "nat8": 7, "nat16": 15, "nat32": 31, "nat64": 63}


def rt_as(v, w):
    v = int(v)
    return v & ((1 << w) - 1)


def rt_asint(v):
    if isinstance(v, str):
        return ord(v)
    return int(v)


class LabelBreak(Exception):
    def __init__(self, n):
        self.n = n


# ---------------------------------------------------------------- program structure
class Mod:
    def __init__(self, name, parent, prog):
        self.name, self.parent, self.prog = name, parent, prog
        self.decls = {}
        self.ctors = {}
        self.imports = {}
        self.opened = []
        self.refines = None
        self.abstract = False
        self.bound = {}
        self.astlist = []
        self.loaded = False
        self.params = []

    def full(self):
        return self.name if self.parent is None else self.parent.full() + "." + self.name

    def __repr__(self):
        return "<module " + self.full() + ">"


class Fn:
    def __init__(self, ast, mod, owner):
        (_, self.kind, self.name, self.tp, self.params, self.ret, self.rets, self.body, self.flags, self.attrs, self.req, self.ens, self.line) = ast
        self.mod, self.owner = mod, owner
        self.py = None
        self.id = None
        self.exec_ = self.kind in ("function method", "predicate method", "method", "constructor", "iterator")
        self.ghost = (not self.exec_) or "ghost" in self.flags
        self.lemma = self.kind in ("lemma", "colemma") or (self.kind == "method" and "ghost" in self.flags)
        self.static = "static" in self.flags or owner is None
        self.method = self.kind in ("method", "constructor", "lemma", "colemma", "iterator")

    @property
    def self_inout(self):
        return "inout" in self.flags

    def qual(self):
        return self.mod.full() + "." + (self.owner.name + "." if self.owner else "") + self.name

    def __repr__(self):
        return "<" + self.qual() + ">"


class DT:
    def __init__(self, ast, mod, prog):
        (_, self.name, self.tp, ctors, members, self.attrs, self.flags) = ast
        self.mod, self.prog = mod, prog
        self.members = {}
        self.consts = {}
        self.ctors = {}
        self.base = type("D_" + self.name, (Data,), {"__slots__": (), "dt_": self})
        for cn, fs in ctors:
            names = [f[0] or str(i) for i, f in enumerate(fs)]
            pyf = tuple("f_" + mangle(n) for n in names)
            gh = tuple("ghost" in f[2] for f in fs)
            k = type("C_" + cn, (self.base,), {"__slots__": pyf})
            k.tag, k.fields_, k.pyf_, k.ghost_ = cn, tuple(names), pyf, gh
            k.cmp_ = tuple(p for p, g in zip(pyf, gh) if not g) if not prog.spec else pyf
            k.types_ = [f[1] for f in fs]
            k.__init__ = _mkinit(pyf)
            k.idx_ = len(_classes)
            _classes.append(k)
            self.ctors[cn] = k
            for n, g in zip(names, gh):
                prog.fieldinfo.setdefault(n, set()).add(g)
                prog.fieldmods.setdefault(n, []).append((g, mod))
        add_members(self, members, mod, prog)
        for n, f in self.members.items():
            setattr(self.base, "m_" + mangle(n), prog.stub(f))
        for n, (e, fl) in self.consts.items():
            setattr(self.base, "f_" + mangle(n), property(prog.const_stub(self, e)))

    def __repr__(self):
        return f"<datatype {self.name}>"


class Cls:
    def __init__(self, ast, mod, prog):
        (self.kind, self.name, self.tp, members, self.ext, self.attrs, self.flags) = ast
        self.mod, self.prog = mod, prog
        self.members, self.consts, self.vars = {}, {}, {}
        add_members(self, members, mod, prog)

    def find(self, n):
        if n in self.members:
            return self.members[n]
        for t in self.ext:
            b = self.prog.resolve_type(t, self.mod)
            if isinstance(b, Cls):
                f = b.find(n)
                if f:
                    return f

    def pymember(self, n):
        for k in list(self.members):
            if "m_" + mangle(k) == n:
                return self.prog.stub(self.members[k])
        for t in self.ext:
            b = self.prog.resolve_type(t, self.mod)
            if isinstance(b, Cls):
                f = b.pymember(n)
                if f:
                    return f

    def const_member(self, n):
        for k, (e, fl) in self.consts.items():
            if "f_" + mangle(k) == n and e is not None:
                return self.prog.const_stub(self, e)

    def __repr__(self):
        return f"<class {self.name}>"


def add_members(t, members, mod, prog):
    for m in members:
        if m[0] == "fn":
            f = Fn(m, mod, t)
            t.members[f.name] = f
            prog.memberinfo.setdefault(f.name, []).append(f)
        elif m[0] == "field":
            for n, ty, e in m[2]:
                if m[1] == "const" and e is not None:
                    t.consts[n] = (e, m[3])
                elif hasattr(t, "vars"):
                    t.vars[n] = (ty, m[3])
                    if e is not None:
                        t.consts[n] = (e, m[3])
                prog.fieldinfo.setdefault(n, set()).add("ghost" in m[3])
                prog.fieldmods.setdefault(n, []).append(("ghost" in m[3], mod))


class Syn:
    def __init__(self, ast, mod):
        self.ast, self.mod = ast, mod
        self.name, self.kind = ast[1], ast[0]


class ConstD:
    def __init__(self, name, e, mod, flags):
        self.name, self.e, self.mod, self.flags = name, e, mod, flags


class CtorRef:
    def __init__(self, k):
        self.k = k


PYKW = {"None", "True", "False", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally",
        "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"}


def mangle(n):
    return n.replace("'", "_q").replace("?", "_p")


def _mkinit(pyf):
    src = "def __init__(self" + "".join(", " + f for f in pyf) + "):\n    self.h_ = None\n" + "".join(f"    self.{f} = {f}\n" for f in pyf)
    d = {}
    exec(src, d)
    return d["__init__"]


class Program:
    """All modules reachable from the given files through includes."""

    def __init__(self, root, files, overrides=None, univ=None, skip=(), spec=False):
        self.root = root
        self.spec = spec
        self.top = {}
        self.fieldinfo = {}
        self.fieldmods = {}
        self.memberinfo = {}
        self.overrides = overrides or {}
        self.univ = univ or {}
        self.errors = []
        self.seen = set()
        self.inst = {}
        self.g = {k: v for k, v in globals().items() if k.startswith("rt_") or k in ("Data", "Obj", "Arr", "DSet", "ISet", "DMap", "IMap", "MSet", "BV", "Undef", "LabelBreak")}
        self.n = 0
        self.asts = []
        self.calls = {}
        for f in files:
            self.load(os.path.join(root, f), skip)
        for a in self.asts:
            self.decl_module(a, None)

    def load(self, path, skip):
        path = os.path.normpath(path)
        if path in self.seen or any(s in path for s in skip):
            return
        self.seen.add(path)
        try:
            ast = parse_file(path)
        except Exception as e:
            self.errors.append((path, str(e)))
            return
        for d in ast:
            if d[0] == "include":
                self.load(os.path.join(os.path.dirname(path), d[1]), skip)
        for d in ast:
            if d[0] == "module":
                self.asts.append(d)

    # -- modules
    def decl_module(self, ast, parent):
        _, name, at, flags, refines, body, params = ast
        m = None
        for i, seg in enumerate(name):
            if i == len(name) - 1:
                m = Mod(seg, parent, self)
                if parent is None:
                    self.top[seg] = m
                else:
                    parent.decls[seg] = m
            else:
                nxt = (parent.decls if parent else self.top).get(seg)
                if nxt is None:
                    nxt = Mod(seg, parent, self)
                    nxt.loaded = True
                    (parent.decls if parent else self.top)[seg] = nxt
                parent = nxt
        m.abstract = "abstract" in flags
        m.refines, m.params, m.astlist = refines, params, body
        return m

    def ensure(self, m):
        if m.loaded:
            return m
        m.loaded = True
        if m.refines:
            par = self.modpath(m.refines, m.parent, m)
            if par is None:
                self.errors.append((m.full(), f"cannot resolve refined module {m.refines}"))
            else:
                self.ensure(par)
                for n, p in par.bound.items():
                    m.bound.setdefault(n, p)
                self.fill(m, par.allasts)
        m.allasts = (par.allasts if m.refines and par else []) + m.astlist
        self.fill(m, m.astlist)
        return m

    def fill(self, m, asts):
        for d in asts:
            k = d[0]
            if k == "import":
                _, opened, name, path, kind = d
                m.imports[name] = (path, kind)
                if opened and name not in m.opened:
                    m.opened.append(name)
            elif k == "module":
                self.decl_module(d, m)
            elif k == "fn":
                f = Fn(d, m, None)
                old = m.decls.get(f.name)
                if isinstance(old, Fn):
                    if f.params is None:
                        f.params, f.rets, f.ret = old.params, old.rets, old.ret
                    if f.body is None:
                        f.body = old.body
                    if f.kind in ("function", "predicate") and old.exec_:
                        f.kind, f.exec_, f.ghost = old.kind, True, old.ghost
                m.decls[f.name] = f
            elif k == "field":
                for n, ty, e in d[2]:
                    m.decls[n] = ConstD(n, e, m, d[3])
            elif k == "datatype":
                t = DT(d, m, self)
                m.decls[t.name] = t
                for cn, c in t.ctors.items():
                    m.ctors[cn] = c
            elif k in ("class", "trait"):
                t = Cls(d, m, self)
                old = m.decls.get(t.name)
                m.decls[t.name] = t
            elif k in ("type", "subset", "newtype"):
                m.decls[d[1]] = Syn(d, m)

    def modpath(self, path, scope, frm=None):
        """module for a dotted path used inside `scope` (None: top level); frm: the module whose import it is"""
        cur = None
        for i, seg in enumerate(path):
            args = None
            if isinstance(seg, tuple):
                seg, args = seg[1], seg[2]
            if i == 0:
                cur = self.modname(seg, scope, frm)
            else:
                cur = self.submod(cur, seg)
            if cur is None:
                return None
            if args is not None:
                cur = self.instantiate(cur, [self.modpath(a, frm or scope) for a in args])
        return cur

    def submod(self, m, seg):
        self.ensure(m)
        if seg in m.bound:
            return m.bound[seg]
        d = m.decls.get(seg)
        if isinstance(d, Mod):
            return d
        if seg in m.imports:
            return self.imported(m, seg)
        return None

    def modname(self, seg, scope, frm=None):
        m = frm or scope
        first = True
        while m is not None:
            if seg in m.bound:
                return m.bound[seg]
            d = m.decls.get(seg)
            if isinstance(d, Mod):
                return d
            if seg in m.imports and not (first and frm is not None and m.imports[seg][0] == [seg]) and not getattr(m, "resolving", None) == seg:
                return self.imported(m, seg)
            first = False
            m = m.parent
        return self.top.get(seg)

    def imported(self, m, name):
        path, kind = m.imports[name]
        key = ("imp", name)
        c = m.__dict__.setdefault("impcache", {})
        if key in c:
            return c[key]
        save = getattr(m, "resolving", None)
        m.resolving = name
        try:
            if path[0] == name:
                r = self.top.get(name) if len(path) == 1 else None
                if m.parent is not None:
                    r = self.modname(name, m.parent) or r
                if len(path) > 1:
                    r = self.modpath(path, m.parent)
                if r is None:
                    r = self.modpath(path, None)
            else:
                r = self.modpath(path, m)
        finally:
            m.resolving = save
        c[key] = r
        return r

    def instantiate(self, m, args):
        key = (m, tuple(args))
        r = self.inst.get(key)
        if r is None:
            r = Mod(m.name, m.parent, self)
            r.refines, r.params, r.astlist, r.abstract = m.refines, m.params, m.astlist, m.abstract
            for (n, _), a in zip(m.params, args):
                r.bound[n] = a
            self.inst[key] = r
        return r

    def mod(self, name):
        cur = None
        for s in name.split("."):
            cur = self.top[s] if cur is None else self.submod(cur, s)
        return self.ensure(cur)

    # -- names
    def own(self, m, name):
        self.ensure(m)
        if name in m.bound:
            return m.bound[name]
        if name in m.decls:
            d = m.decls[name]
            return d
        if name in m.ctors:
            return CtorRef(m.ctors[name])
        return None

    def lookup(self, name, m):
        first = m
        while m is not None:
            self.ensure(m)
            r = self.own(m, name)
            if r is not None:
                return r
            if name in m.imports:
                r = self.imported(m, name)
                if r is not None:
                    return r
            for o in m.opened:
                om = self.imported(m, o)
                if om is not None:
                    r = self.own(om, name)
                    if r is not None:
                        return r
            for o in m.opened:
                om = self.imported(m, o)
                if om is not None and name in self.ensure(om).imports:
                    r = self.imported(om, name)
                    if r is not None:
                        return r
            m = m.parent
        return self.top.get(name)

    def member(self, r, name):
        """static member `name` of a module or type"""
        if isinstance(r, Mod):
            x = self.own(r, name)
            if x is None and name in self.ensure(r).imports:
                x = self.imported(r, name)
            if x is None:
                for o in r.opened:
                    om = self.imported(r, o)
                    if om is not None:
                        x = self.own(om, name)
                        if x is not None:
                            return x
            return x
        r = self.unsyn(r)
        if isinstance(r, DT):
            if name in r.ctors:
                return CtorRef(r.ctors[name])
            return r.members.get(name) or (ConstD(name, r.consts[name][0], r.mod, r.consts[name][1]) if name in r.consts else None)
        if isinstance(r, Cls):
            return r.find(name) or (ConstD(name, r.consts[name][0], r.mod, r.consts[name][1]) if name in r.consts else None)
        if isinstance(r, Mod):
            return self.member(r, name)
        return None

    def unsyn(self, r):
        n = 0
        while isinstance(r, Syn) and n < 50:
            n += 1
            if r.kind == "type":
                ty = r.ast[3]
            else:
                ty = r.ast[4]
            if ty is None or ty[0] != "ty":
                return r
            x = self.resolve_path(ty[1], r.mod, r)
            if x is None:
                return r
            r = x
        return r

    def resolve_path(self, segs, m, avoid=None):
        r = None
        for i, s in enumerate(segs):
            if i == 0:
                r = self.lookup(s, m)
                if isinstance(r, CtorRef):
                    r = None
                if r is avoid:
                    # a synonym for a type of the same name elsewhere
                    for o in m.opened:
                        om = self.imported(m, o)
                        x = self.own(om, s) if om is not None else None
                        if x is not None and x is not avoid:
                            r = x
                            break
                    else:
                        return None
            else:
                r = self.member(r, s)
            if r is None:
                return None
        return r

    def resolve_type(self, ty, m):
        if ty is None or ty[0] != "ty":
            return None
        r = self.resolve_path(ty[1], m)
        return self.unsyn(r) if r is not None else None

    def base_int(self, ty, m, depth=0):
        """(width or "int"/"nat"/...) of a numeric type, else None"""
        if ty is None or ty[0] != "ty" or depth > 20:
            return None
        n = ty[1][-1]
        if len(ty[1]) == 1:
            if n in ("int", "nat", "bool", "real", "char", "ORDINAL"):
                return n
            if n.startswith("bv") and n[2:].isdigit():
                return n
        r = self.resolve_path(ty[1], m)
        if isinstance(r, Syn):
            if r.kind == "newtype":
                return r.name if r.name in INTS else "int"
            return self.base_int(r.ast[3] if r.kind == "type" else r.ast[4], r.mod, depth + 1)
        return None

    def visible(self, m):
        v = m.__dict__.get("vis")
        if v is None:
            v = {m}
            k = m
            while k is not None:
                v.add(k)
                for n in list(k.imports):
                    x = self.imported(k, n)
                    if x is not None:
                        v.add(x)
                        y = x
                        while y is not None and y.refines:
                            y = self.modpath(y.refines, y.parent, y)
                            v.add(y)
                k = k.parent
            m.vis = v
        return v

    def field_ghost(self, n, m):
        """is the field n ghost, in a use in module m?  True or False, None if there is no such field"""
        fi = self.fieldinfo.get(n)
        if not fi:
            return None
        if len(fi) == 1:
            return next(iter(fi))
        c = m.__dict__.setdefault("fgcache", {})
        if n not in c:
            vis = self.visible(m)
            g = {g for g, d in self.fieldmods[n] if d in vis}
            c[n] = g == {True}
        return c[n]

    # -- functions
    def stub(self, f):
        if f.py is None:
            prog = self

            def stub(*a):
                return prog.compile(f)(*a)
            stub.fn = f
            f.py = stub
        p = f.py
        prog = self

        def call(*a):
            return f.py(*a)
        return call

    def const_stub(self, owner, e):
        cache = {}
        prog = self

        def get(this):
            c = cache.get("c")
            if c is None:
                g = Gen(prog, owner.mod, owner, True)
                c = cache["c"] = eval(g.lam_src(e), prog.g)
            return c(this)
        return get

    def compile(self, f):
        q = f.qual()
        self.calls[q] = self.calls.get(q, 0) + 1
        o = self.overrides.get(q) or self.overrides.get("*." + (f.owner.name + "." if f.owner else "") + f.name)
        if o is None:
            for a, args in f.attrs:
                if a == "extern" and args:
                    o = EXTERN.get(args[-1]) or EXTERN.get(f.name)
            if o is None and (f.body is None or f.body == ("nop",)):
                o = EXTERN.get(f.name)
        if o is not None:
            f.py = o
            return o
        if f.lemma:
            f.py = lambda *a: None
            return f.py
        if f.body is None:
            raise Missing(f"{q} has no body")
        g = Gen(self, f.mod, f.owner, f.exec_)
        src, name = g.fn(f)
        try:
            exec(compile_(src, q), self.g)
        except SyntaxError as e:
            raise DfyError(f"{q}: {e}\n{src}")
        f.py = self.g[name]
        f.src = src
        return f.py

    def fid(self, f):
        """name, in the generated code, of a function"""
        if f.id is None:
            self.n += 1
            f.id = f"F{self.n}_{mangle(f.name)}"
            prog, name = self, f.id

            def first(*a):
                py = prog.compile(f)
                prog.g[name] = py
                return py(*a)
            self.g[name] = first
        return f.id

    def const(self, v, base="K"):
        self.n += 1
        n = f"{base}{self.n}"
        self.g[n] = v
        return n

    def get(self, path):
        """a function, constructor or constant by its path Module.[Type.]name"""
        segs = path.split(".")
        r = None
        for i in range(len(segs), 0, -1):
            try:
                m = self.mod(".".join(segs[:i]))
            except Exception:
                continue
            r = m
            for s in segs[i:]:
                r = self.member(r, s)
            break
        if isinstance(r, Fn):
            fid = self.fid(r)
            return lambda *a: self.g[fid](*a)
        if isinstance(r, CtorRef):
            return r.k
        if isinstance(r, ConstD):
            return eval(Gen(self, r.mod, None, True).ex(r.e, {}), self.g)
        return r

    def domain(self, ty, m):
        """the values of a type"""
        if ty is not None and ty[0] == "ty":
            n = ty[1][-1]
            if n in self.univ:
                u = self.univ[n]
                return u() if callable(u) else u
            if n == "bool":
                return (False, True)
            if n in ("nat", "int") and "nat" in self.univ:
                return self.univ["nat"]
            if n == "Option" or n == "lOption":
                pass
            if n[0] == "?":
                raise Missing(f"no domain for {n[1:]}")
            r = self.resolve_path(ty[1], m)
            if isinstance(r, Syn) and r.kind in ("type", "subset"):
                d = r.ast[3] if r.kind == "type" else r.ast[4]
                if d is not None:
                    return self.domain(d, r.mod)
            if isinstance(r, DT):
                out = []
                sub = dict(zip(r.tp, ty[2]))
                for k in r.ctors.values():
                    import itertools
                    doms = [tuple(self.domain(sub.get(t[1][0], t) if t[0] == "ty" and len(t[1]) == 1 else t, r.mod)) for t in k.types_]
                    out += [k(*a) for a in itertools.product(*doms)]
                return out
        raise Missing(f"no domain for the type {ty}")


def compile_(src, q):
    return compile(src, f"<{q}>", "exec")


# ---------------------------------------------------------------- code generation
class Gen:
    def __init__(self, prog, mod, owner, exec_):
        self.prog, self.mod, self.owner, self.exec = prog, mod, owner, exec_ and not prog.spec
        self.n = 0
        self.selfname = "self"
        self.static = False

    def fresh(self, base="v"):
        self.n += 1
        return f"{mangle(base)}_{self.n}" if base not in PYKW else f"v_{self.n}"

    def default(self, ty):
        b = self.prog.base_int(ty, self.mod)
        if b is not None:
            return "False" if b == "bool" else f"rt_bv0({b[2:]})" if b.startswith("bv") else "0"
        if ty and ty[0] == "ty" and len(ty[1]) == 1:
            r = {"seq": "()", "string": "()", "set": "DSet()", "map": "DMap({})", "multiset": "MSet({})"}.get(ty[1][0])
            if r:
                return r
        return "None"

    def lam_src(self, e):
        return "lambda self: " + self.ex(e, {})

    def fn(self, f):
        self.static = f.static
        self.f = f
        name = f"D_{self.prog.n}_{mangle(f.name)}"
        self.prog.n += 1
        env = {}
        ps = []
        if f.owner is not None and not f.static and f.kind != "constructor":
            ps.append("self")
        for n, ty, fl, _ in (f.params or []):
            v = self.fresh(n or "p")
            env[n] = (v, "ghost" in fl and self.exec)
            ps.append(v)
        out = []
        if f.kind == "constructor":
            self.prog.g.setdefault("Obj", Obj)
            ps.insert(0, "self")
        if not f.method and isinstance(f.body, tuple) and f.body[0] != "block":
            self.tail(f.body, env, out, 1)
        else:
            for n, ty, fl, _ in f.rets:
                v = self.fresh(n or "r")
                env[n] = (v, "ghost" in fl and self.exec)
                out.append(f"    {v} = {self.default(ty)}")
            self.outs = self.outvars(f)
            self.block(f.body, env, out, 1, top=True)
            self.env0 = env
            out.append("    " + self.ret(env))
        src = f"def {name}({', '.join(ps)}):\n" + "\n".join(out) + "\n"
        return src, name

    def outvars(self, f):
        o = []
        if f.self_inout and f.owner is not None and not f.static:
            o.append("self")
        for n, ty, fl, _ in f.params or []:
            if "inout" in fl:
                o.append(n)
        for n, ty, fl, _ in f.rets:
            o.append(n)
        return o

    def ret(self, env):
        if self.f.kind == "constructor":
            return "return self"
        vs = [("self" if n == "self" and "self" not in env else self.top[n] if n in getattr(self, "top", {}) else env[n][0]) for n in self.outs]
        if not vs:
            return "return None"
        if len(vs) == 1:
            return "return " + vs[0]
        return "return (" + ", ".join(vs) + ")"

    # -- ghost analysis
    def isghost(self, e, env):
        if not self.exec or not isinstance(e, tuple):
            return False
        k = e[0]
        if k == "id":
            n = e[1]
            if n in env:
                return env[n][1]
            if n.startswith("old_"):
                return True
            if self.owner is not None:
                fi = self.ownfield(n)
                if fi is not None:
                    return fi
                f = self.ownmember(n)
                if f is not None:
                    return f.ghost
            r = self.prog.lookup(n, self.mod)
            if isinstance(r, Fn):
                return r.ghost
            if isinstance(r, ConstD):
                return "ghost" in r.flags
            return False
        if k in ("old", "fresh", "allocated", "unchanged"):
            return True
        if k == "field":
            st = self.static_ref(e, env)
            if st is not None:
                if isinstance(st, Fn):
                    return st.ghost
                return False
            if self.isghost(e[1], env):
                return True
            fi = self.prog.field_ghost(e[2], self.mod)
            mi = self.prog.memberinfo.get(e[2])
            if fi:
                return True
            if fi is None and mi and all(m.ghost for m in mi):
                return True
            return False
        if k == "call":
            if self.isghost(e[1], env):
                return True
            ps = self.callee_params(e[1], env)
            for i, a in enumerate(e[2]):
                if ps is not None and i < len(ps) and ps[i]:
                    continue
                if self.isghost(a, env):
                    return True
            return False
        if k == "quant":
            sub = dict(env)
            for n, t in e[2]:
                sub[n] = ("x", False)
            return (e[3] is not None and self.isghost(e[3], sub)) or self.isghost(e[4], sub)
        if k == "lam":
            sub = dict(env)
            for n, t in e[1]:
                sub[n] = ("x", False)
            return self.isghost(e[2], sub)
        if k == "let":
            sub = dict(env)
            for pt, x in zip(e[1], e[2]):
                g = self.isghost(x, env) or e[4]
                for n in pvars(pt):
                    sub[n] = ("x", g)
            return self.isghost(e[3], sub)
        if k == "match":
            if self.isghost(e[1], env):
                return True
            for pt, b in e[2]:
                sub = dict(env)
                for n in pvars(pt):
                    sub[n] = ("x", False)
                if self.isghost(b, sub):
                    return True
            return False
        if k == "stmtexpr":
            return self.isghost(e[2], env)
        if k in ("setc", "mapc", "letst", "type", "ty", "str", "int", "char"):
            return False
        if k == "as" or k == "is":
            return self.isghost(e[1], env)
        if k == "inst":
            return self.isghost(e[1], env)
        return any(self.isghost(x, env) for x in flat(e[1:]))

    def ownfield(self, n):
        """ghostness of a field of the enclosing type, None if there is no such field"""
        o = self.owner
        if isinstance(o, DT):
            for c in o.ctors.values():
                if n in c.fields_:
                    return c.ghost_[c.fields_.index(n)]
            if n in o.consts:
                return "ghost" in o.consts[n][1]
        elif isinstance(o, Cls):
            return self.clsfield(o, n)
        return None

    def clsfield(self, o, n):
        if n in o.vars:
            return "ghost" in o.vars[n][1]
        if n in o.consts:
            return "ghost" in o.consts[n][1]
        for t in o.ext:
            b = self.prog.resolve_type(t, o.mod)
            if isinstance(b, Cls):
                r = self.clsfield(b, n)
                if r is not None:
                    return r
        return None

    def ownmember(self, n):
        o = self.owner
        if isinstance(o, DT):
            return o.members.get(n)
        if isinstance(o, Cls):
            return o.find(n)

    def static_ref(self, e, env):
        """what an id/field path denotes when it is a module, type, function, constructor or constant"""
        if e[0] == "inst":
            return self.static_ref(e[1], env)
        if e[0] == "id":
            n = e[1]
            if n in env or (self.owner is not None and (self.ownfield(n) is not None or self.ownmember(n) is not None)):
                return None
            return self.prog.lookup(n, self.mod)
        if e[0] == "field":
            b = self.static_ref(e[1], env)
            if b is None or isinstance(b, (Fn, ConstD, CtorRef)):
                return None
            return self.prog.member(b, e[2])
        return None

    def ctor_of(self, r, n):
        if not isinstance(r, (Syn, DT)):
            return r
        u = self.prog.unsyn(r)
        if isinstance(u, DT) and n in u.ctors:
            return CtorRef(u.ctors[n])
        m = r.mod
        if n in m.ctors:
            return CtorRef(m.ctors[n])
        return r

    def callee(self, f, env):
        """the Fn called by an expression, if it can be told; or a list of candidates by name"""
        if f[0] == "inst":
            return self.callee(f[1], env)
        if f[0] == "id":
            if f[1] in env:
                return None
            if self.owner is not None:
                m = self.ownmember(f[1])
                if m is not None:
                    return m
                if self.ownfield(f[1]) is not None:
                    return None
            r = self.ctor_of(self.prog.lookup(f[1], self.mod), f[1])
            return r if isinstance(r, (Fn, CtorRef)) else None
        if f[0] == "field":
            st = self.ctor_of(self.static_ref(f, env), f[2])
            if isinstance(st, (Fn, CtorRef)):
                return st
            if st is None:
                return self.prog.memberinfo.get(f[2])
        return None

    def callee_params(self, f, env):
        """ghostness of the parameters"""
        c = self.callee(f, env)
        if isinstance(c, Fn):
            return [("ghost" in p[2]) or c.ghost for p in c.params or []]
        if isinstance(c, CtorRef):
            return list(c.k.ghost_)
        if isinstance(c, list) and c:
            n = max(len(x.params or []) for x in c)
            return [all("ghost" in x.params[i][2] for x in c if len(x.params or []) > i) for i in range(n)]
        return None

    # -- statements
    def block(self, b, env, out, ind, top=False):
        if top:
            self.top = {n: v[0] for n, v in env.items()}
        env = dict(env)
        n0 = len(out)
        for s in (b[1] if b[0] == "block" else [b]):
            self.stmt(s, env, out, ind)
        if len(out) == n0:
            out.append("    " * ind + "pass")

    def stmt(self, s, env, out, ind):
        k = s[0]
        pad = "    " * ind
        if k in ("nop", "assert", "assume", "expect", "forall", "print", "assign_ghost"):
            return
        if k == "block":
            self.block(s, env, out, ind)
            return
        if k == "label":
            if has_break(s[2], s[1]):
                out.append(pad + "try:")
                n0 = len(out)
                self.stmt(s[2], env, out, ind + 1)
                if len(out) == n0:
                    out.append(pad + "    pass")
                v = self.fresh("e")
                out.append(pad + f"except LabelBreak as {v}:")
                out.append(pad + f"    if {v}.n != {s[1]!r}: raise")
            else:
                self.stmt(s[2], env, out, ind)
            return
        if k == "var":
            names, rhs, g = s[1], s[2], s[3]
            if (g or all(n[2] for n in names)) and self.exec:
                for pt, ty, _ in names:
                    for n in pvars(pt):
                        env[n] = ("None", True)
                return
            if rhs is None:
                for pt, ty, gh in names:
                    n = pt[1][0]
                    v = self.fresh(n)
                    env[n] = (v, gh and self.exec)
                    out.append(pad + f"{v} = {self.default(ty)}")
                return
            if len(rhs) == 1 and self.exec and rhs[0][0] == "call" and self.is_lemma_call(rhs[0], env):
                for pt, ty, _ in names:
                    for n in pvars(pt):
                        env[n] = ("None", True)
                return
            new = {}
            if len(rhs) == len(names) and len(rhs) > 1 or (len(rhs) == 1 and len(names) == 1):
                tmp = []
                for (pt, ty, gh), r in zip(names, rhs):
                    if gh and self.exec:
                        for n in pvars(pt):
                            new[n] = ("None", True)
                        continue
                    if self.exec and self.isghost(r, env) and r[0] != "call":
                        for n in pvars(pt):
                            new[n] = ("None", True)
                        continue
                    tmp.append((pt, r))
                for pt, r in tmp:
                    v = self.rhs(r, env, out, ind, 1)
                    self.bindpat(pt, v, new, out, ind)
            else:
                v = self.rhs(rhs[0], env, out, ind, len(names))
                vs = []
                for pt, ty, gh in names:
                    w = self.fresh(pt[1][0] if pt[0] == "pid" else "w")
                    vs.append(w)
                    if pt[0] == "pid":
                        new[pt[1][0]] = (w, gh and self.exec)
                out.append(pad + ", ".join(vs) + f" = {v}")
                for (pt, ty, gh), w in zip(names, vs):
                    if pt[0] not in ("pid", "pwild"):
                        self.bindpat(pt, w, new, out, ind)
            env.update(new)
            return
        if k == "varst":
            names, P, g = s[1], s[2], s[3]
            if g and self.exec:
                for pt, ty, _ in names:
                    env[pt[1][0]] = ("None", True)
                return
            vs = [(pt[1][0], ty) for pt, ty, _ in names]
            new = {n: (self.fresh(n), False) for n, _ in vs}
            out.append(pad + ", ".join(new[n][0] for n, _ in vs) + ("," if len(vs) == 1 else "") + f" = rt_such({self.gen(vs, P, None, env, lambda e2: '(' + ', '.join(e2[n][0] for n, _ in vs) + ',)')})")
            env.update(new)
            return
        if k == "assignst":
            vs = []
            for l in s[1]:
                vs.append((l[1], None))
            new = {n: (self.fresh(n), False) for n, _ in vs}
            e2 = {n: v for n, v in env.items() if n not in new}
            t = self.fresh("t")
            out.append(pad + f"{t} = rt_such({self.gen(vs, s[2], None, e2, lambda e3: '(' + ', '.join(e3[n][0] for n, _ in vs) + ',)')})")
            for i, l in enumerate(s[1]):
                self.assign(l, f"{t}[{i}]", env, out, ind)
            return
        if k == "assign":
            lhs, rhs, g = s[1], s[2], s[3]
            if g and self.exec:
                return
            if len(rhs) == 1 and rhs[0][0] == "call" and self.exec and self.is_lemma_call(rhs[0], env):
                return
            if len(lhs) == len(rhs):
                ps = []
                for l, r in zip(lhs, rhs):
                    if self.exec and self.lhs_ghost(l, env):
                        if r[0] == "call" and not self.isghost(r[1], env):
                            self.rhs(r, env, out, ind, 1)
                        continue
                    ps.append((l, r))
                if len(ps) == 1:
                    v = self.rhs(ps[0][1], env, out, ind, 1)
                    self.assign(ps[0][0], v, env, out, ind)
                else:
                    ts = []
                    for l, r in ps:
                        t = self.fresh("t")
                        out.append(pad + f"{t} = {self.rhs(r, env, out, ind, 1)}")
                        ts.append(t)
                    for (l, r), t in zip(ps, ts):
                        self.assign(l, t, env, out, ind)
            else:
                v = self.rhs(rhs[0], env, out, ind, len(lhs))
                ts = [self.fresh("t") for _ in lhs]
                out.append(pad + ", ".join(ts) + f" = {v}")
                for l, t in zip(lhs, ts):
                    if not (self.exec and self.lhs_ghost(l, env)):
                        self.assign(l, t, env, out, ind)
            return
        if k == "callst":
            e = s[1]
            if e[0] == "inout":
                e = e[1]
            if e[0] != "call":
                return
            if self.exec and self.is_lemma_call(e, env):
                return
            if self.callee_is_spec(e, env):
                return
            v = self.rhs(e, env, out, ind, 0)
            if v != "None":
                out.append(pad + v)
            return
        if k == "if":
            c = s[1]
            if c[0] == "star":
                raise DfyError("nondeterministic if")
            if c[0] == "some":
                raise Missing("if :|")
            if self.exec and self.isghost(c, env):
                return
            out.append(pad + f"if {self.ex(c, env)}:")
            self.block(s[2], env, out, ind + 1)
            if s[3] is not None:
                out.append(pad + "else:")
                self.block(s[3], env, out, ind + 1)
            return
        if k == "ifcases":
            for i, (c, b) in enumerate(s[1]):
                out.append(pad + ("if" if i == 0 else "elif") + f" {self.ex(c, env)}:")
                self.block(b, env, out, ind + 1)
            return
        if k == "while":
            if self.exec and self.isghost(s[1], env):
                return
            n = self.fresh("n")
            out.append(pad + f"{n} = 0")
            out.append(pad + f"while {self.ex(s[1], env)}:")
            out.append(pad + f"    {n} += 1")
            out.append(pad + f"    if {n} > 1000000: raise Undef('a loop without end')")
            self.block(s[2], env, out, ind + 1)
            return
        if k == "break":
            out.append(pad + ("break" if s[1] is None else f"raise LabelBreak({s[1]!r})"))
            return
        if k == "continue":
            out.append(pad + "continue")
            return
        if k == "return":
            if s[1] is not None:
                outs = [o for o in self.outs if not self.is_inout_out(o)]
                if len(s[1]) == len(outs) and len(outs) != 1:
                    ts = []
                    for o, r in zip(outs, s[1]):
                        t = self.fresh("t")
                        gh = env.get(o, ("", False))[1]
                        out.append(pad + f"{t} = {'None' if gh or self.isghost(r, env) else self.rhs(r, env, out, ind, 1)}")
                        ts.append(t)
                    for o, t in zip(outs, ts):
                        out.append(pad + f"{self.top[o]} = {t}")
                elif len(outs) == 1:
                    out.append(pad + f"{self.top[outs[0]]} = {self.rhs(s[1][0], env, out, ind, 1)}")
                else:
                    out.append(pad + ", ".join(self.top[o] for o in outs) + f" = {self.rhs(s[1][0], env, out, ind, len(outs))}")
            out.append(pad + self.ret(env))
            return
        if k == "match":
            if self.exec and self.isghost(s[1], env):
                return
            v = self.fresh("m")
            out.append(pad + f"{v} = {self.ex(s[1], env)}")
            first = True
            for pt, b in s[2]:
                conds, binds = self.pat(pt, v)
                e2 = dict(env)
                out.append(pad + ("if " if first else "elif ") + (" and ".join(conds) or "True") + ":")
                n0 = len(out)
                for n, x in binds:
                    w = self.fresh(n)
                    out.append("    " * (ind + 1) + f"{w} = {x}")
                    e2[n] = (w, False)
                self.block(b, e2, out, ind + 1)
                first = False
            if not first:
                out.append(pad + "else:")
                out.append(pad + f"    rt_nomatch({v})")
            return
        raise Missing(f"statement {k}")

    def is_inout_out(self, o):
        f = self.f
        if o == "self" and f.self_inout:
            return True
        return any(p[0] == o and "inout" in p[2] for p in f.params or [])

    def is_lemma_call(self, e, env):
        c = self.callee(e[1], env)
        if isinstance(c, Fn):
            return c.lemma or (c.ghost and not c.method)
        if isinstance(c, list) and c:
            return all(x.ghost for x in c)
        if e[1][0] == "id" and e[1][1].startswith("reveal_"):
            return True
        if e[1][0] == "field" and e[1][2].startswith("reveal_"):
            return True
        if c is None:
            return self.isghost(e[1], env)
        return False

    def callee_is_spec(self, e, env):
        """a call statement to something without effect: a lemma or a function"""
        n = e[1][1] if e[1][0] == "id" else e[1][2] if e[1][0] == "field" else ""
        if isinstance(n, str) and n.startswith("reveal_"):
            return True
        c = self.callee(e[1], env)
        if isinstance(c, Fn):
            return c.lemma
        if isinstance(c, list) and c:
            return all(x.lemma for x in c)
        return False

    def lhs_ghost(self, l, env):
        if l[0] == "id":
            n = l[1]
            if n in env:
                return env[n][1]
            fi = self.ownfield(n)
            return bool(fi)
        if l[0] == "field":
            return bool(self.prog.field_ghost(l[2], self.mod)) or self.lhs_ghost(l[1], env)
        if l[0] == "index":
            return self.lhs_ghost(l[1], env)
        return False

    def assign(self, l, v, env, out, ind):
        pad = "    " * ind
        if l[0] == "id":
            n = l[1]
            if n == "_":
                out.append(pad + v)
            elif n in env:
                if env[n][1]:
                    return
                out.append(pad + f"{env[n][0]} = {v}")
            elif n == "self":
                out.append(pad + f"self = {v}")
            elif self.owner is not None and self.ownfield(n) is not None:
                out.append(pad + f"self = rt_setf(self, 'f_{mangle(n)}', {v})")
            else:
                raise Missing(f"assignment to {n}")
        elif l[0] == "this":
            out.append(pad + f"self = {v}")
        elif l[0] == "field":
            f = mangle(l[2])
            self.assign(l[1], f"rt_setf({self.ex(l[1], env)}, {('f_' + f)!r}, {v})", env, out, ind)
        elif l[0] == "index":
            self.assign(l[1], f"rt_setidx({self.ex(l[1], env)}, {self.ex(l[2], env)}, {v})", env, out, ind)
        elif l[0] == "inout":
            self.assign(l[1], v, env, out, ind)
        elif l[0] == "call":
            out.append(pad + v)
        else:
            raise Missing(f"assignment to {l[0]}")

    def rhs(self, r, env, out, ind, want):
        """Python expression for a right-hand side; emits the write-back of inout arguments"""
        pad = "    " * ind
        if r[0] == "star":
            return "None"
        if r[0] == "inout":
            r = r[1]
        if r[0] == "new":
            return self.new(r, env)
        if r[0] == "newarr":
            if r[3] is not None and r[3][0] == "seqlit":
                return f"Arr(list({self.ex(r[3], env)}))"
            if r[3] is not None:
                return f"Arr([({self.ex(r[3], env)})(i_) for i_ in range({self.ex(r[2][0], env)})])"
            zero = "0" if r[1] is not None and self.prog.base_int(r[1], self.mod) else "None"
            return f"Arr([{zero}] * {self.ex(r[2][0], env)})"
        if r[0] == "call":
            f = r[1]
            ios = []
            if f[0] == "field" and f[1][0] == "inout":
                ios.append(f[1][1])
                r = ("call", ("field", f[1][1], f[2]), r[2], r[3])
            elif f[0] == "id" and f[1] not in env and self.owner is not None:
                m = self.ownmember(f[1])
                if m is not None and m.self_inout and not m.static:
                    ios.append(("this",))
            for a in r[2]:
                if a[0] == "inout":
                    ios.append(a[1])
            if ios:
                args = [a[1] if a[0] == "inout" else a for a in r[2]]
                src = self.ex(("call", r[1], args, r[3]), env)
                ts = [self.fresh("io") for _ in ios]
                gh = [self.exec and self.lhs_ghost(l, env) for l in ios]
                if want == 0 and len(ts) == 1:
                    # may still return values that are dropped
                    nret = self.nrets(r[1], env)
                    if ios[0] == (f[1][1] if f[0] == "field" and f[1][0] == "inout" else None) and isinstance(self.callee(r[1], env), list):
                        # which of several types' members is called is known only when it is
                        t = self.fresh("t")
                        out.append(pad + f"{t} = {src}")
                        out.append(pad + f"{ts[0]} = {t}[0] if {t}.__class__ is tuple else {t}")
                    elif nret:
                        t = self.fresh("t")
                        out.append(pad + f"{t} = {src}")
                        out.append(pad + f"{ts[0]} = {t}[0]")
                    else:
                        out.append(pad + f"{ts[0]} = {src}")
                    if not gh[0]:
                        self.assign(ios[0], ts[0], env, out, ind)
                    return "None"
                t = self.fresh("t")
                out.append(pad + f"{t} = {src}")
                for i, (l, x) in enumerate(zip(ios, ts)):
                    out.append(pad + f"{x} = {t}[{i}]")
                for l, x, g in zip(ios, ts, gh):
                    if not g:
                        self.assign(l, x, env, out, ind)
                if want == 0:
                    return "None"
                if want == 1:
                    return f"{t}[{len(ios)}]"
                return f"{t}[{len(ios)}:]"
        return self.ex(r, env)

    def nrets(self, f, env):
        c = self.callee(f, env)
        if isinstance(c, Fn):
            return len(c.rets)
        if isinstance(c, list) and c:
            return len(c[0].rets)
        return 0

    def new(self, r, env):
        segs = r[1][1]
        t = self.prog.resolve_path(segs, self.mod)
        t = self.prog.unsyn(t) if t is not None else None
        ctor = "_ctor"
        if not isinstance(t, Cls):
            t = self.prog.unsyn(self.prog.resolve_path(segs[:-1], self.mod))
            ctor = segs[-1]
        if not isinstance(t, Cls):
            raise Missing(f"new {segs}")
        ek = self.prog.overrides.get("new " + t.mod.full() + "." + t.name) or EXTCLS.get(t.name)
        f = t.find(ctor)
        args = ""
        if r[2] is not None:
            gp = [("ghost" in p[2]) for p in (f.params or [])] if isinstance(f, Fn) else []
            args = ", ".join("None" if (i < len(gp) and gp[i] and self.exec) else self.ex(a, env) for i, a in enumerate(r[2]))
        if ek is not None:
            return f"{self.prog.const(ek)}({args})"
        cn = self.prog.const(t)
        if r[2] is None or f is None:
            return f"Obj({cn})"
        return f"{self.prog.fid(f)}(Obj({cn}){', ' + args if args else ''})"

    # -- patterns
    def pat(self, pt, v):
        conds, binds = [], []
        self.pat1(pt, v, conds, binds)
        return conds, binds

    def pat1(self, pt, v, conds, binds):
        k = pt[0]
        if k == "pwild":
            return
        if k == "ptyped":
            return self.pat1(pt[1], v, conds, binds)
        if k == "pid":
            n = pt[1][-1]
            if len(pt[1]) > 1 or self.is_ctor_name(n):
                conds.append(f"{v}.tag == {n!r}")
            else:
                binds.append((n, v))
            return
        if k == "plit":
            conds.append(f"{v} == {self.ex(pt[1], {})}")
            return
        if k == "ptuple":
            for i, p in enumerate(pt[1]):
                self.pat1(p, f"{v}[{i}]", conds, binds)
            return
        if k == "pctor":
            conds.append(f"{v}.tag == {pt[1][-1]!r}")
            for i, p in enumerate(pt[2]):
                self.pat1(p, f"{v}[{i}]", conds, binds)
            return
        raise Missing("pattern " + k)

    def is_ctor_name(self, n):
        if not (n[0].isupper() or n in ("lNone",)):
            r = self.prog.lookup(n, self.mod)
            return isinstance(r, CtorRef)
        return True

    def bindpat(self, pt, v, new, out, ind):
        pad = "    " * ind
        if pt[0] == "pid" and (len(pt[1]) > 1 or pt[1][0] == "_"):
            out.append(pad + v)
            return
        if pt[0] in ("pid", "pwild"):
            if pt[0] == "pwild":
                if v != "None":
                    out.append(pad + v)
                return
            w = self.fresh(pt[1][0])
            out.append(pad + f"{w} = {v}")
            new[pt[1][0]] = (w, False)
            return
        t = self.fresh("d")
        out.append(pad + f"{t} = {v}")
        conds, binds = self.pat(pt, t)
        for n, x in binds:
            w = self.fresh(n)
            out.append(pad + f"{w} = {x}")
            new[n] = (w, False)

    # -- function bodies, as statements
    def tail(self, e, env, out, ind):
        pad = "    " * ind
        k = e[0]
        if k == "if":
            out.append(pad + f"if {self.ex(e[1], env)}:")
            self.tail(e[2], env, out, ind + 1)
            out.append(pad + "else:")
            self.tail(e[3], env, out, ind + 1)
            return
        if k == "stmtexpr":
            return self.tail(e[2], env, out, ind)
        if k == "let":
            env = dict(env)
            new = {}
            if len(e[1]) != len(e[2]):
                raise Missing("let of several values")
            for pt, x in zip(e[1], e[2]):
                if self.exec and (e[4] or self.isghost(x, env)):
                    for n in pvars(pt):
                        new[n] = ("None", True)
                    continue
                self.bindpat(pt if pt[0] != "ptyped" else pt[1], self.ex(x, env), new, out, ind)
            env.update(new)
            return self.tail(e[3], env, out, ind)
        if k == "match":
            v = self.fresh("m")
            out.append(pad + f"{v} = {self.ex(e[1], env)}")
            for pt, b in e[2]:
                conds, binds = self.pat(pt, v)
                out.append(pad + "if " + (" and ".join(conds) or "True") + ":")
                e2 = dict(env)
                for n, x in binds:
                    w = self.fresh(n)
                    out.append(pad + f"    {w} = {x}")
                    e2[n] = (w, False)
                self.tail(b, e2, out, ind + 1)
            out.append(pad + f"rt_nomatch({v})")
            return
        out.append(pad + "return " + self.ex(e, env))

    # -- expressions
    def ex(self, e, env):
        return getattr(self, "e_" + e[0])(e, env)

    def e_int(self, e, env):
        return str(e[1])

    def e_real(self, e, env):
        return e[1]

    def e_bool(self, e, env):
        return str(e[1])

    def e_char(self, e, env):
        return repr(e[1])

    def e_str(self, e, env):
        return repr(tuple(e[1]))

    def e_null(self, e, env):
        return "None"

    def e_star(self, e, env):
        return "None"

    def e_this(self, e, env):
        return "self"

    def e_inout(self, e, env):
        return self.ex(e[1], env)

    def e_named(self, e, env):
        return self.ex(e[2], env)

    def e_inst(self, e, env):
        return self.ex(e[1], env)

    def e_old(self, e, env):
        if self.exec:
            return "None"
        raise Missing("old")

    def e_fresh(self, e, env):
        return "True"

    e_allocated = e_unchanged = e_fresh

    def e_stmtexpr(self, e, env):
        return self.ex(e[2], env)

    def e_id(self, e, env):
        n = e[1]
        if n in env:
            return env[n][0]
        if n == "self":
            return "self"
        if self.owner is not None:
            if self.ownfield(n) is not None:
                return f"self.f_{mangle(n)}"
            m = self.ownmember(n)
            if m is not None:
                return f"self.m_{mangle(n)}" if not m.static else self.prog.fid(m)
        if n.startswith("old_") and self.exec:
            return "None"
        return self.entity(self.prog.lookup(n, self.mod), n)

    def entity(self, r, n):
        r = self.ctor_of(r, n)
        if isinstance(r, CtorRef):
            if r.k.pyf_:
                return self.prog.const(r.k, "C")
            c = r.k.__dict__.get("inst_")
            if c is None:
                c = self.prog.const(r.k(), "C")
                r.k.inst_ = c
            return c
        if isinstance(r, Fn):
            return self.prog.fid(r)
        if isinstance(r, ConstD):
            if r.e is None:
                raise Missing(f"constant {n}")
            key = "c_" + str(id(r))
            c = self.prog.calls.get(key)
            if c is None:
                g = Gen(self.prog, r.mod, None, True)
                prog = self.prog
                val = []

                def get():
                    if not val:
                        val.append(eval(g.ex(r.e, {}), prog.g))
                    return val[0]
                c = self.prog.calls[key] = self.prog.const(get, "G")
            return c + "()"
        if n.startswith("reveal_"):
            return "None"
        raise Missing(f"{self.mod.full()}: unknown name {n}")

    def e_field(self, e, env):
        st = self.ctor_of(self.static_ref(e, env), e[2])
        if st is not None and not isinstance(st, (Mod, DT, Cls, Syn)):
            return self.entity(st, e[2])
        n = e[2]
        b = self.ex(e[1], env)
        if n.isdigit():
            return f"{b}[{n}]"
        if n.endswith("?") and len(n) > 1:
            return f"({b}.tag == {n[:-1]!r})"
        if n in ("requires", "reads"):
            return f"(lambda *a_: True)"
        fi, mi = self.prog.fieldinfo.get(n), self.prog.memberinfo.get(n)
        if mi and not fi and n not in ("Keys", "Values", "Items", "Length"):
            return f"{b}.m_{mangle(n)}"
        return f"{b}.f_{mangle(n)}"

    def e_call(self, e, env):
        f, args = e[1], e[2]
        while f[0] == "inst":
            f = f[1]
        ps = self.callee_params(f, env) if self.exec else None
        avs = []
        for i, a in enumerate(args):
            if ps is not None and i < len(ps) and ps[i] or (self.exec and self.isghost(a, env)):
                avs.append("None")
            else:
                avs.append(self.ex(a, env))
        A = ", ".join(avs)
        if any(a[0] == "named" for a in args):
            c0 = self.callee(f, env)
            if isinstance(c0, CtorRef):
                order = list(c0.k.fields_)
                d = {a[1]: v for a, v in zip(args, avs) if a[0] == "named"}
                pos = [v for a, v in zip(args, avs) if a[0] != "named"]
                A = ", ".join(pos + [d[n] for n in order[len(pos):]])
        if f[0] == "id" and f[1] not in env and self.owner is not None:
            m = self.ownmember(f[1])
            if m is not None:
                if m.static:
                    return f"{self.prog.fid(m)}({A})"
                return f"self.m_{mangle(f[1])}({A})"
        if f[0] == "field":
            st = self.static_ref(f, env)
            if st is None:
                n = f[2]
                b = self.ex(f[1], env)
                mi = self.prog.memberinfo.get(n)
                if mi:
                    return f"{b}.m_{mangle(n)}({A})"
                if n in ("requires", "reads"):
                    return "True"
                return f"{b}.f_{mangle(n)}({A})"
        c = self.callee(f, env)
        if isinstance(c, CtorRef):
            return f"{self.prog.const(c.k, 'C')}({A})" if c.k.pyf_ else self.entity(c, "")
        return f"{self.ex(f, env)}({A})"

    def e_index(self, e, env):
        return f"rt_idx({self.ex(e[1], env)}, {self.ex(e[2], env)})"

    def e_slice(self, e, env):
        a = "None" if e[2] is None else self.ex(e[2], env)
        b = "None" if e[3] is None else self.ex(e[3], env)
        return f"rt_slice({self.ex(e[1], env)}, {a}, {b})"

    def e_update(self, e, env):
        return f"rt_upd({self.ex(e[1], env)}, {self.ex(e[2], env)}, {self.ex(e[3], env)})"

    def e_dupd(self, e, env):
        ups = [(f, v) for f, v in e[2]]
        parts = []
        for f, v in ups:
            if self.exec and (self.prog.field_ghost(f, self.mod) or self.isghost(v, env)):
                continue
            parts.append(f"f_{mangle(f)}={self.ex(v, env)}")
        return f"{self.ex(e[1], env)}.upd_({', '.join(parts)})"

    def e_un(self, e, env):
        x = self.ex(e[2], env)
        if e[1] == "card":
            return f"len({x})"
        if e[1] == "!":
            if e[2][0] in ("bin", "chain", "quant") and (e[2][0] != "bin" or e[2][1] in ("==", "!=", "<", "<=", ">", ">=", "in", "!in", "&&", "||", "==>", "<==>")):
                return f"(not {x})"
            return f"rt_not({x})"
        return f"(-{x})"

    def intlike(self, e):
        k = e[0]
        if k == "int":
            return True
        if k == "un":
            return e[1] in ("card", "-")
        if k == "bin":
            return e[1] in ("-", "*", "/", "%") and (self.intlike(e[2]) or self.intlike(e[3])) or (e[1] == "+" and (self.intlike(e[2]) or self.intlike(e[3])))
        if k == "as":
            return self.prog.base_int(e[2], self.mod) is not None
        return False

    def cmp(self, op, a, b, ea, eb):
        if op == "==":
            return f"({a} == {b})"
        if op == "!=":
            return f"({a} != {b})"
        if op in ("<", "<=", ">", ">="):
            if self.intlike(ea) or self.intlike(eb):
                return f"({a} {op} {b})"
            if op[0] == ">":
                return f"rt_{'lt' if op == '>' else 'le'}({b}, {a})"
            return f"rt_{'lt' if op == '<' else 'le'}({a}, {b})"
        if op == "in":
            return f"({a} in {b})"
        if op == "!in":
            return f"({a} not in {b})"
        if op == "!!":
            return f"rt_disjoint({a}, {b})"
        raise Missing("operator " + op)

    def e_bin(self, e, env):
        op = e[1]
        if op == "&&":
            return f"({self.ex(e[2], env)} and {self.ex(e[3], env)})"
        if op == "||":
            return f"({self.ex(e[2], env)} or {self.ex(e[3], env)})"
        if op == "==>":
            return f"((not {self.ex(e[2], env)}) or {self.ex(e[3], env)})"
        a, b = self.ex(e[2], env), self.ex(e[3], env)
        if op == "<==>":
            return f"(bool({a}) == bool({b}))"
        if op in ("+", "-", "*", "&", "|", "^", "<<", ">>"):
            return f"({a} {op} {b})"
        if op == "/":
            return f"rt_div({a}, {b})"
        if op == "%":
            return f"rt_mod({a}, {b})"
        return self.cmp(op, a, b, e[2], e[3])

    def e_chain(self, e, env):
        vs = [self.ex(x, env) for x in e[2]]
        return "(" + " and ".join(self.cmp(op, vs[i], vs[i + 1], e[2][i], e[2][i + 1]) for i, op in enumerate(e[1])) + ")"

    def e_if(self, e, env):
        if e[1][0] == "some":
            vs = e[1][1]
            v = self.fresh("s")
            g = self.gen(vs, e[1][2], None, env, lambda e2: "(" + ", ".join(e2[n][0] for n, _ in vs) + ",)")
            names = {n: (self.fresh(n), False) for n, _ in vs}
            e2 = dict(env)
            e2.update(names)
            return f"(lambda {v}: (lambda {', '.join(names[n][0] for n, _ in vs)}: {self.ex(e[2], e2)})(*{v}) if {v} is not None else {self.ex(e[3], env)})(next(iter({g}), None))"
        return f"({self.ex(e[2], env)} if {self.ex(e[1], env)} else {self.ex(e[3], env)})"

    def e_let(self, e, env):
        if len(e[1]) != len(e[2]):
            raise Missing("let of several values")
        e2 = dict(env)
        params, args, extra = [], [], []
        for pt, x in zip(e[1], e[2]):
            if pt[0] == "ptyped":
                pt = pt[1]
            if self.exec and (e[4] or self.isghost(x, env)):
                for n in pvars(pt):
                    e2[n] = ("None", True)
                continue
            v = self.fresh("l")
            params.append(v)
            args.append(self.ex(x, env))
            conds, binds = self.pat(pt, v)
            for n, px in binds:
                e2[n] = (px, False)
        if not params:
            return self.ex(e[3], e2)
        return f"(lambda {', '.join(params)}: {self.ex(e[3], e2)})({', '.join(args)})"

    def e_letst(self, e, env):
        vs = [(p[1][0], None) if p[0] == "pid" else (p[1][1][0], p[2]) for p in e[1]]
        g = self.gen(vs, e[2], None, env, lambda e2: "(" + ", ".join(e2[n][0] for n, _ in vs) + ",)")
        names = {n: (self.fresh(n), False) for n, _ in vs}
        e2 = dict(env)
        e2.update(names)
        return f"(lambda {', '.join(names[n][0] for n, _ in vs)}: {self.ex(e[3], e2)})(*rt_such({g}))"

    def e_match(self, e, env):
        v = self.fresh("m")
        r = f"rt_nomatch({v})"
        for pt, b in reversed(e[2]):
            conds, binds = self.pat(pt, v)
            e2 = dict(env)
            for n, x in binds:
                e2[n] = (x, False)
            r = f"({self.ex(b, e2)} if {' and '.join(conds) or 'True'} else {r})"
        return f"(lambda {v}: {r})({self.ex(e[1], env)})"

    def e_lam(self, e, env):
        e2 = dict(env)
        vs = []
        for n, t in e[1]:
            v = self.fresh(n if n != "_" else "u")
            vs.append(v)
            e2[n] = (v, False)
        return f"(lambda {', '.join(vs)}: {self.ex(e[2], e2)})"

    def e_seqlit(self, e, env):
        return "(" + "".join(self.ex(x, env) + ", " for x in e[1]) + ")"

    def e_setlit(self, e, env):
        return "DSet((" + "".join(self.ex(x, env) + ", " for x in e[2]) + "))"

    def e_mslit(self, e, env):
        return "MSet.of((" + "".join(self.ex(x, env) + ", " for x in e[1]) + "))"

    def e_maplit(self, e, env):
        return "DMap((" + "".join(f"({self.ex(a, env)}, {self.ex(b, env)}), " for a, b in e[2]) + "))"

    def e_multiset(self, e, env):
        return f"rt_multiset({self.ex(e[1], env)})"

    def e_seqc(self, e, env):
        return f"rt_seq({self.ex(e[1], env)}, {self.ex(e[2], env)})"

    def e_tuple(self, e, env):
        return "(" + "".join(self.ex(x, env) + ", " for x in e[1]) + ")"

    def e_new(self, e, env):
        return self.new(e, env)

    def e_as(self, e, env):
        x = self.ex(e[1], env)
        b = self.prog.base_int(e[2], self.mod)
        if b is None:
            return x
        if b in INTS:
            if e[1][0] == "int":
                return x
            return f"rt_as({x}, {INTS[b]})"
        if b.startswith("bv"):
            return f"BV.of({b[2:]}, {x})"
        if b in ("int", "nat", "ORDINAL"):
            return f"rt_asint({x})"
        if b == "char":
            return f"chr({x})"
        return x

    def e_is(self, e, env):
        return "True"

    def e_quant(self, e, env):
        _, q, vs, r, b = e
        if q == "forall":
            conj = [r] if r is not None else []
            body = b
            while body[0] == "bin" and body[1] == "==>":
                conj.append(body[2])
                body = body[3]
            if body[0] == "quant" and body[1] == "forall" and False:
                pass
            P = None
            for c in conj:
                P = c if P is None else ("bin", "&&", P, c)
            return f"all({self.gen(vs, P, None, env, lambda e2: self.ex(body, e2))})"
        P = b if r is None else ("bin", "&&", r, b)
        return f"any({self.gen(vs, P, None, env, lambda e2: 'True')})"

    def e_setc(self, e, env):
        _, kind, vs, r, b = e
        try:
            return f"DSet({self.gen(vs, r, None, env, lambda e2: self.ex(b, e2) if b is not None else e2[vs[0][0]][0])})"
        except Missing:
            if b is None or b == ("id", vs[0][0]):
                v = self.fresh(vs[0][0])
                e2 = dict(env)
                e2[vs[0][0]] = (v, False)
                return f"ISet(lambda {v}: {self.ex(r, e2) if r is not None else 'True'})"
            raise

    def e_mapc(self, e, env):
        _, kind, vs, r, key, b = e
        if key is None and len(vs) != 1:
            raise Missing("map comprehension over several variables")
        return f"DMap({self.gen(vs, r, None, env, lambda e2: '(' + (self.ex(key, e2) if key is not None else e2[vs[0][0]][0]) + ', ' + self.ex(b, e2) + ')')})"

    # -- enumeration
    def conjuncts(self, P):
        if P is None:
            return []
        if P[0] == "bin" and P[1] == "&&":
            return self.conjuncts(P[2]) + self.conjuncts(P[3])
        if P[0] == "stmtexpr":
            return self.conjuncts(P[2])
        if P[0] == "chain":
            return [("bin", op, P[2][i], P[2][i + 1]) for i, op in enumerate(P[1])]
        return [P]

    def between(self, cs, names):
        """the conjuncts, and i < n for i < j, j < n with a variable j"""
        lt = [(strip(a), op, strip(b)) for c in cs if c[0] == "bin" and c[1] in ("<", "<=", ">", ">=") for a, op, b in [(c[2], c[1], c[3]) if c[1][0] == "<" else (c[3], "<" + c[1][1:], c[2])]]
        out = list(cs)
        for a, o1, b in lt:
            for c, o2, d in lt:
                if b == c and b[0] == "id" and b[1] in names and a != d:
                    out.append(("bin", "<" if "<" in (o1, o2) else "<=", a, d))
        return out

    def gen(self, vs, P, body, env, result):
        """a generator expression over the values of vs satisfying P"""
        cs = self.conjuncts(P)
        names = [n for n, _ in vs]
        env = dict(env)
        for n in names:
            env.pop(n, None)
        todo = list(vs)
        done = set()
        parts = []
        used = [False] * len(cs)
        ext = self.between(cs, names) if len(names) > 1 else cs

        def flush():
            for i, c in enumerate(cs):
                if not used[i] and not (fv(c) & (set(names) - done)):
                    # keep the order: a conjunct may rely on the ones before it
                    if all(used[j] or (fv(cs[j]) & (set(names) - done)) for j in range(i)):
                        used[i] = True
                        parts.append(f"if {self.ex(c, env)}")
        first = True
        while todo:
            pick = None
            for n, ty in todo:
                d = self.dom(n, ty, ext, set(names) - done, env)
                if d is not None:
                    pick = (n, ty, d)
                    break
            if pick is None:
                for n, ty in todo:
                    # a variable without a type: its domain goes by its name
                    dty = ty if ty is not None else ("ty", ["?" + n], [])
                    pick = (n, ty, f"{self.prog.const(TypeDom(self.prog, dty, self.mod))}()")
                    try:
                        self.prog.domain(dty, self.mod)
                        break
                    except Missing:
                        pick = None
                if pick is None:
                    raise Missing(f"{self.mod.full()}: cannot enumerate {todo} in {P!r}"[:300])
            n, ty, d = pick
            v = self.fresh(n if n != "_" else "u")
            if first:
                # conditions that do not depend on the variables come first
                pre = [i for i, c in enumerate(cs) if not (fv(c) & set(names))]
                for i in pre:
                    used[i] = True
                if pre:
                    parts.append("for _ in (0,) if " + " and ".join(self.ex(cs[i], env) for i in pre))
                first = False
            parts.append(f"for {v} in {d}")
            env[n] = (v, False)
            done.add(n)
            todo = [t for t in todo if t[0] != n]
            flush()
        for i, c in enumerate(cs):
            if not used[i]:
                parts.append(f"if {self.ex(c, env)}")
        src = result(env)
        return f"({src} {' '.join(parts)})"

    def dom(self, n, ty, cs, unbound, env):
        others = unbound
        lo = hi = None
        if ty is not None and ty == ("ty", ["nat"], []):
            lo = "0"
        for c in cs:
            d = self.dom1(n, c, others, env)
            if d is not None:
                return d
            if c[0] == "bin" and c[1] in ("<", "<=", ">", ">="):
                op, a, b = c[1], c[2], c[3]
                if op[0] == ">":
                    op, a, b = "<" + op[1:], b, a
                sa, sb = strip(a), strip(b)
                if sb == ("id", n) and not (fv(a) & others):
                    x = self.ex(a, env) + (" + 1" if op == "<" else "")
                    lo = x if lo is None else f"max({lo}, {x})"
                if sa == ("id", n) and not (fv(b) & others):
                    x = self.ex(b, env) + (" + 1" if op == "<=" else "")
                    hi = x if hi is None else f"min({hi}, {x})"
        if hi is not None and lo is None and ty is not None and self.prog.base_int(ty, self.mod) in INTS:
            lo = "0"
        if lo is not None and hi is not None:
            return f"range({lo}, {hi})"
        return None

    def dom1(self, n, c, others, env):
        if c[0] == "bin" and c[1] == "in" and c[2] == ("id", n) and not (fv(c[3]) & others):
            return f"rt_iter({self.ex(c[3], env)})"
        if c[0] == "bin" and c[1] == "==":
            if c[2] == ("id", n) and not (fv(c[3]) & others):
                return f"rt_eq1({self.ex(c[3], env)})"
            if c[3] == ("id", n) and not (fv(c[2]) & others):
                return f"rt_eq1({self.ex(c[2], env)})"
        if c[0] == "bin" and c[1] == "||":
            a = self.dom(n, None, self.conjuncts(c[2]), others, env)
            b = self.dom(n, None, self.conjuncts(c[3]), others, env)
            if a is not None and b is not None:
                return f"(set({a}) | set({b}))"
        if c[0] == "bin" and c[1] == "&&":
            return self.dom(n, None, self.conjuncts(c), others, env)
        return None


class TypeDom:
    def __init__(self, prog, ty, mod):
        self.prog, self.ty, self.mod = prog, ty, mod

    def __call__(self):
        return self.prog.domain(self.ty, self.mod)


def strip(e):
    while e[0] == "as":
        e = e[1]
    return e


def flat(x):
    for y in x:
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            yield y
        elif isinstance(y, (list, tuple)):
            yield from flat(y)


def pvars(pt):
    if pt[0] == "pid":
        return [pt[1][0]] if len(pt[1]) == 1 and not (pt[1][0][0].isupper()) else []
    if pt[0] == "ptyped":
        return pvars(pt[1])
    if pt[0] in ("ptuple",):
        return [n for p in pt[1] for n in pvars(p)]
    if pt[0] == "pctor":
        return [n for p in pt[2] for n in pvars(p)]
    return []


def fv(e):
    """identifiers occurring free in an expression (binders are approximated by removing their names)"""
    if not isinstance(e, tuple) or not e:
        return set()
    k = e[0]
    if k == "id":
        return {e[1]}
    if k in ("int", "str", "char", "bool", "ty", "real"):
        return set()
    if k == "field":
        return fv(e[1])
    if k == "quant":
        return ((fv(e[3]) if e[3] else set()) | fv(e[4])) - {n for n, _ in e[2]}
    if k == "lam":
        return fv(e[2]) - {n for n, _ in e[1]}
    if k == "setc":
        return ((fv(e[3]) if e[3] else set()) | (fv(e[4]) if e[4] else set())) - {n for n, _ in e[2]}
    if k == "mapc":
        return ((fv(e[3]) if e[3] else set()) | (fv(e[4]) if e[4] else set()) | fv(e[5])) - {n for n, _ in e[2]}
    if k == "let":
        r = fv(e[3])
        for p in e[1]:
            r = r - set(pvars(p))
        for x in e[2]:
            r = r | fv(x)
        return r
    if k == "letst":
        r = fv(e[2]) | fv(e[3])
        for p in e[1]:
            r = r - set(pvars(p))
        return r
    if k == "match":
        r = fv(e[1])
        for p, b in e[2]:
            r = r | (fv(b) - set(pvars(p)))
        return r
    if k == "dupd":
        r = fv(e[1])
        for _, v in e[2]:
            r = r | fv(v)
        return r
    if k in ("as", "is", "inst"):
        return fv(e[1])
    if k == "stmtexpr":
        return fv(e[2])
    if k == "chain":
        r = set()
        for x in e[2]:
            r |= fv(x)
        return r
    if k == "named":
        return fv(e[2])
    r = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            r |= fv(x) if x and isinstance(x[0], str) else set().union(*[fv(y) for y in x]) if x else set()
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, tuple) and y and not isinstance(y[0], str):
                    for z in y:
                        r |= fv(z)
                else:
                    r |= fv(y)
    return r


def has_break(s, n):
    if isinstance(s, (tuple, list)):
        if isinstance(s, tuple) and len(s) == 2 and s[0] == "break" and s[1] == n:
            return True
        return any(has_break(x, n) for x in s)
    return False


# ---------------------------------------------------------------- trusted externs
EMPTY = None


class Swap:
    def __init__(self, a, *d):
        self.a = a

    def m_Swap(self, x):
        self.a, y = x, self.a
        return y

    def m_Borrow(self):
        return self.a


EXTCLS = {"SwapAffine": Swap, "SwapLinear": Swap}


def _le(n):
    def unpack(s, i=0):
        b = s.a if s.__class__ is Arr else s
        if i + n > len(b) or i < 0:
            raise Undef("unpack outside of the buffer")
        return int.from_bytes(bytes(b[i:i + n]), "little")

    def pack(v, ar, i):
        if i + n > len(ar.a) or i < 0:
            raise Undef("pack outside of the array")
        ar.a[i:i + n] = list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
    return unpack, pack


_u4, _p4 = _le(4)
_u8, _p8 = _le(8)


def _copy(src, si, dst, di, n):
    s = src.a if src.__class__ is Arr else src
    if not (0 <= si and si + n <= len(s) and 0 <= di and di + n <= len(dst.a)):
        raise Undef("copy outside of the array")
    dst.a[di:di + n] = list(s[si:si + n])


def _resize(s, n, z):
    return s[:n] + (z,) * (n - len(s))


def _swap_raw(s, i, a):
    if not 0 <= i < len(s):
        raise Undef(f"lseq index {i} of {len(s)}")
    return (s[:i] + (a,) + s[i + 1:], s[i])


def _cmp(a, b):
    return -1 if a < b else 1 if a > b else 0


def _crc_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
        t.append(c)
    return t


CRCT = _crc_table()


def crc32c(s):
    c = 0xFFFFFFFF
    t = CRCT
    for b in s:
        c = t[(c ^ b) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def _crcstep(n):
    def f(acc, v):
        c = acc & 0xFFFFFFFF
        for k in range(n):
            c = CRCT[(c ^ (v >> 8 * k)) & 255] ^ (c >> 8)
        return c
    return f


def _clmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


M64 = (1 << 64) - 1


def _neg(x):
    if x is None:
        raise Undef("peek of an empty maybe")
    return x


EXTERN = {
    "seq_get": lambda s, i: rt_idx(s, i), "seq_set": rt_upd, "seq_length": len, "seq_empty": lambda: (), "seq_alloc": lambda n, a: (a,) * n,
    "seq_free": lambda s: (), "seq_unleash": lambda s: s, "seq_length_bound": lambda s: None, "shared_seq_length_bound": lambda s: None,
    "lseq_length_raw": len, "lseq_alloc_raw": lambda n: (None,) * n, "lseq_free_raw": lambda s: (), "lseq_swap_raw_fun": _swap_raw,
    "lseq_share_raw": lambda s, i: rt_idx(s, i), "lseq_length_bound": lambda s: None,
    "TrustedRuntimeSeqResize": lambda s, n: _resize(s, n, 0), "TrustedRuntimeLSeqResize": lambda s, n: _resize(s, n, None),
    "peek": _neg, "unwrap": _neg, "give": lambda a: a, "empty": lambda: None, "discard": lambda m: (),
    "ToDestructor": lambda f: f, "ToDestructorEnv": lambda f, e: (lambda a: f(a, e)), "CallDestructor": lambda d, a: d(a),
    "ByteSeqCmpByteSeq": _cmp, "newArrayFill": lambda n, t: Arr([t] * n), "newArrayClone": lambda a: Arr(list(a.a)),
    "CopySeqIntoArray": _copy, "CopyArrayIntoDifferentArray": _copy, "CopyArrayIntoArray": _copy,
    "Unpack__LittleEndian__Uint32": _u4, "Unpack__LittleEndian__Uint64": _u8, "Unpack__LittleEndian__Uint64__From__Array": _u8,
    "Pack__LittleEndian__Uint32__into__Array": _p4, "Pack__LittleEndian__Uint64__into__Array": _p8,
    "Unpack__LittleEndian__Uint32__Seq": lambda p, i, n: tuple(_u4(p, i + 4 * k) for k in range(n)),
    "Unpack__LittleEndian__Uint64__Seq": lambda p, i, n: tuple(_u8(p, i + 8 * k) for k in range(n)),
    "Pack__LittleEndian__Uint32__Seq__into__Array": lambda u, ar, i: [_p4(v, ar, i + 4 * k) for k, v in enumerate(u)] and None,
    "Pack__LittleEndian__Uint64__Seq__into__Array": lambda u, ar, i: [_p8(v, ar, i + 8 * k) for k, v in enumerate(u)] and None,
    "u64add": lambda a, b: (a + b) & M64, "ComputeMapRemove1": lambda m, k: DMap({a: b for a, b in m.d.items() if a != k}),
    "start": lambda *a: None, "end": lambda *a: None, "stop": lambda *a: None, "set_amass_mode": lambda *a: None,
    "intrinsic_mm_crc32_u8": _crcstep(1), "intrinsic_mm_crc32_u16": _crcstep(2), "intrinsic_mm_crc32_u32": _crcstep(4), "intrinsic_mm_crc32_u64": _crcstep(8),
    "intrinsic_mm_clmulepi64_si128_0": lambda a, b: _clmul(a & M64, b & M64), "intrinsic_mm_clmulepi64_si128_16": lambda a, b: _clmul(a & M64, (b >> 64) & M64),
    "intrinsic_mm_xor_si128": lambda a, b: a ^ b, "bitxor32": lambda a, b: a ^ b, "bitxor64": lambda a, b: a ^ b,
    "intrinsic_mm_cvtepu32_epi64": lambda a: (a & 0xFFFFFFFF) | (((a >> 32) & 0xFFFFFFFF) << 64),
    "intrinsic_mm_loadu_si128": lambda s, i: rt_idx(s, i) | (rt_idx(s, i + 1) << 64), "intrinsic_mm_cvtsi64_si128": lambda a: a, "intrinsic_mm_cvtsi128_si64": lambda a: a & M64,
    "crc32_c_padded": lambda s: tuple(crc32c(s).to_bytes(4, "little")) + (0,) * 28,
}
