"""Value model shared by the evaluators of the repository's specification languages (Verus spec code, Dafny).

Values are immutable and hashable: Python ints and bools, Seq, FSet, FMap, MSet, plain tuples, and Data objects (one
generated Python class per datatype variant).  Unspecified results (a map looked up outside its domain, ...) are Arb
values: opaque, equal only to themselves, and unusable for arithmetic.
"""
import functools
import itertools


class Undef(Exception):
    """An operation whose result the language leaves unspecified was used in a way that needs a concrete value."""


class Unbound(Exception):
    """A logic variable was read before the solver bound it."""


class Missing(Exception):
    """The evaluator lacks something (a universe for a quantified type, a builtin, ...): a tool error."""


class Arb:
    __slots__ = ("k",)

    def __init__(self, k):
        object.__setattr__(self, "k", k)

    def __eq__(self, o):
        return isinstance(o, Arb) and o.k == self.k

    def __hash__(self):
        return hash(("Arb", self.k))

    def __getattr__(self, n):
        if n.startswith("f_"):
            return Arb((self.k, n))
        if n.startswith("m_"):
            return lambda *a: Arb((self.k, n, a))
        if n in ("d", "s"):
            raise Undef(repr(self))
        raise AttributeError(n)

    def _bad(self, *a):
        raise Undef(repr(self))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _bad
    __iter__ = __len__ = __index__ = __int__ = __neg__ = __mod__ = __floordiv__ = __contains__ = __neg__ = _bad

    def __getitem__(self, i):
        return Arb((self.k, "[]", i))

    def __repr__(self):
        return f"Arb({self.k!r})"


class Data:
    __slots__ = ("_h", "_gr")
    _type = None
    _variant = None
    _fields = ()

    def __eq__(self, o):
        if self is o:
            return True
        if type(self) is not type(o):
            if isinstance(o, LVar):
                raise Unbound()
            return False
        for n in self._slots:
            a, b = getattr(self, n), getattr(o, n)
            if a is not b and a != b:
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            h = hash((self._type.uid, self._variant) + tuple(getattr(self, n) for n in self._slots))
            self._h = h
            return h

    def __repr__(self):
        if not self._fields:
            return self._variant
        return self._variant + "{" + ", ".join(f"{n}: {getattr(self, s)!r}" for n, s in zip(self._fields, self._slots)) + "}"

    def __reduce__(self):
        return (_mk, (self._type.uid, self._variant) + tuple(getattr(self, s) for s in self._slots))

    def __getitem__(self, i):
        return self.m_spec_index(i)

    def with_(self, **kw):
        """Functional update; keywords are field names."""
        return type(self)(*[kw.get(n, getattr(self, s)) for n, s in zip(self._fields, self._slots)])


@functools.lru_cache(None)
def mangle(n):
    return "f_" + n.replace("?", "_q").replace("'", "_p").replace("#", "_h")


_uid = itertools.count()
_typedefs = {}


def _mk(uid, variant, *args):
    return _typedefs[uid].variants[variant](*args)


def make_variant(tdef, variant, fields):
    slots = tuple(mangle(f) for f in fields)
    args = ", ".join(slots)
    body = "\n".join(f"    self.{s} = {s}" for s in slots) or "    pass"
    ns = {}
    exec(f"def __init__(self{', ' if args else ''}{args}):\n{body}\n", ns)
    return type(variant, (tdef.base,), {"__slots__": slots, "_slots": slots, "_type": tdef, "_variant": variant,
                                       "_fields": tuple(fields), "__init__": ns["__init__"]})


class TypeDef:
    """A user datatype.  base: Python base class that carries the methods; variants: name -> class."""

    def __init__(self, name, generics=()):
        self.name = name
        self.uid = next(_uid)
        _typedefs[self.uid] = self
        self.generics = list(generics)
        self.base = type(name, (Data,), {"__slots__": ()})
        self.variants = {}
        self.vfields = {}       # variant -> [(field, type)]
        self.fns = {}           # associated functions and methods
        self.scope = None
        self.subst = None

    def add(self, variant, fields):
        self.variants[variant] = make_variant(self, variant, [f for f, _ in fields])
        self.vfields[variant] = list(fields)

    def field_type(self, f):
        for v, fs in self.vfields.items():
            for n, t in fs:
                if n == f:
                    return t
        return None

    def __repr__(self):
        return f"<type {self.name}>"


class LVar:
    """A logic variable: unbound, bound to a value, or a partially known record."""
    __slots__ = ("val", "kids", "ty")

    def __init__(self, ty=None):
        object.__setattr__(self, "val", None)
        object.__setattr__(self, "kids", None)
        object.__setattr__(self, "ty", ty)

    def __getattr__(self, n):
        raise Unbound()

    def _bad(self, *a):
        raise Unbound()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _bad
    __iter__ = __len__ = __index__ = __int__ = __neg__ = __mod__ = __floordiv__ = __contains__ = __getitem__ = __eq__ = __ne__ = __hash__ = _bad


def idx_key(i):
    return i


class Seq(tuple):
    __slots__ = ()

    def __repr__(self):
        return "[" + ", ".join(map(repr, self)) + "]"

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Seq(tuple.__getitem__(self, i))
        if type(i) is int and 0 <= i < len(self):
            return tuple.__getitem__(self, i)
        if isinstance(i, LVar):
            raise Unbound()
        return Arb(("idx", self, i))

    def __add__(self, o):
        return Seq(tuple.__add__(self, o))

    def m_len(self):
        return len(self)

    m_spec_len = m_len

    def m_spec_index(self, i):
        return self[i]

    m_index = m_spec_index

    def m_push(self, x):
        return Seq(tuple.__add__(self, (x,)))

    def m_update(self, i, x):
        if not 0 <= i < len(self):
            return self
        return Seq(tuple.__add__(tuple.__add__(tuple.__getitem__(self, slice(0, i)), (x,)), tuple.__getitem__(self, slice(i + 1, None))))

    def m_subrange(self, a, b):
        if not 0 <= a <= b <= len(self):
            return Arb(("subrange", self, a, b))
        return Seq(tuple.__getitem__(self, slice(a, b)))

    def m_take(self, n):
        return self.m_subrange(0, n)

    def m_skip(self, n):
        return self.m_subrange(n, len(self))

    def m_add(self, o):
        return self + o

    def m_contains(self, x):
        return tuple.__contains__(self, x)

    def m_last(self):
        return self[len(self) - 1]

    def m_first(self):
        return self[0]

    def m_drop_last(self):
        return Seq(tuple.__getitem__(self, slice(0, max(0, len(self) - 1)))) if self else Arb(("drop_last",))

    def m_drop_first(self):
        return self.m_subrange(1, len(self))

    def m_to_set(self):
        return FSet(self)

    def m_to_multiset(self):
        return MSet.of(self)

    def m_map(self, f):
        return Seq(f(i, x) for i, x in enumerate(self))

    def m_map_values(self, f):
        return Seq(f(x) for x in self)

    def m_filter(self, f):
        return Seq(x for x in self if f(x))

    def m_insert(self, i, x):
        return Seq(tuple(self)[:i] + (x,) + tuple(self)[i:])

    def m_remove(self, i):
        return Seq(tuple(self)[:i] + tuple(self)[i + 1:])

    def m_index_of(self, x):
        return self.index(x) if tuple.__contains__(self, x) else Arb(("index_of", self, x))

    def m_no_duplicates(self):
        return len(set(self)) == len(self)

    def m_fold_left(self, b, f):
        for x in self:
            b = f(b, x)
        return b

    m_fold_left_alt = m_fold_left

    def m_fold_right(self, f, b):
        for x in reversed(tuple(self)):
            b = f(x, b)
        return b

    def m_reverse(self):
        return Seq(reversed(tuple(self)))

    def m_finite(self):
        return True

    def m_view(self):
        return self

    def m_is_prefix_of(self, o):
        return tuple(o)[:len(self)] == tuple(self)

    def m_is_empty(self):
        return len(self) == 0

    def m_all(self, f):
        return all(f(x) for x in self)

    def m_any(self, f):
        return any(f(x) for x in self)

    def m_dom(self):
        return FSet(range(len(self)))

    def m_flatten(self):
        return Seq(y for x in self for y in x)


class FSet(frozenset):
    __slots__ = ()

    def __repr__(self):
        return "{" + ", ".join(sorted(map(repr, self))) + "}"

    def __contains__(self, x):
        return frozenset.__contains__(self, x)

    def m_contains(self, x):
        return frozenset.__contains__(self, x)

    m_spec_contains = m_contains

    def m_insert(self, x):
        return FSet(frozenset.__or__(self, (x,))) if False else FSet(itertools.chain(self, (x,)))

    def m_remove(self, x):
        return FSet(y for y in self if y != x)

    def m_union(self, o):
        if isinstance(o, Arb):
            raise Undef("set union")
        return FSet(frozenset.__or__(self, o))

    m_add = m_union

    def __add__(self, o):
        return self.m_union(o)

    def m_intersect(self, o):
        return FSet(frozenset.__and__(self, o))

    def __mul__(self, o):
        return self.m_intersect(o)

    def __mod__(self, o):
        return self.m_intersect(o)

    def m_difference(self, o):
        return FSet(frozenset.__sub__(self, o))

    def __sub__(self, o):
        return FSet(frozenset.__sub__(self, o))

    def m_subset_of(self, o):
        return frozenset.__le__(self, o)

    def m_disjoint(self, o):
        return frozenset.isdisjoint(self, o)

    def m_finite(self):
        return True

    def m_len(self):
        return len(self)

    def m_is_empty(self):
        return not self

    def m_filter(self, f):
        return FSet(x for x in self if f(x))

    def m_map(self, f):
        return FSet(f(x) for x in self)

    def m_choose(self):
        if not self:
            return Arb(("choose",))
        return min(self, key=sort_key)

    def m_to_seq(self):
        return Seq(sorted(self, key=sort_key))

    def m_is_singleton(self):
        return len(self) == 1

    def m_mk_map(self, f):
        return FMap((k, f(k)) for k in self)

    def m_view(self):
        return self

    def m_fold(self, b, f):
        for x in sorted(self, key=sort_key):
            b = f(b, x)
        return b

    def m_all(self, f):
        return all(f(x) for x in self)

    def m_any(self, f):
        return any(f(x) for x in self)


def sort_key(x):
    if isinstance(x, bool):
        return (0, int(x))
    if isinstance(x, int):
        return (1, x)
    if isinstance(x, Data):
        return (2, x._type.name, list(x._type.variants).index(x._variant), tuple(sort_key(getattr(x, s)) for s in x._slots))
    if isinstance(x, FSet):
        return (3, len(x), tuple(sorted(map(sort_key, x))))
    if isinstance(x, tuple):
        return (4, len(x), tuple(map(sort_key, x)))
    if isinstance(x, FMap):
        return (5, len(x.d), tuple(sorted((sort_key(k), sort_key(v)) for k, v in x.d.items())))
    if isinstance(x, MSet):
        return (6, tuple(sorted((sort_key(k), v) for k, v in x.d.items())))
    return (7, repr(x))


def determined(v):
    """No unknowns inside (looking into data, not into collections, which never hold unknowns)."""
    if v.__class__ is LVar:
        return False
    if isinstance(v, Data):
        try:
            return v._gr
        except AttributeError:
            r = all(determined(getattr(v, s)) for s in v._slots)
            if r:
                v._gr = True
            return r
    return True


class FMap:
    __slots__ = ("d", "_h")

    def __init__(self, items=()):
        self.d = dict(items)
        self._h = None

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, FMap):
            return self.d == o.d
        if isinstance(o, LVar):
            raise Unbound()
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return "map{" + ", ".join(f"{k!r}: {self.d[k]!r}" for k in sorted(self.d, key=sort_key)) + "}"

    def __getitem__(self, k):
        try:
            return self.d[k]
        except KeyError:
            return Arb(("map[]", k))

    m_spec_index = __getitem__
    m_index = __getitem__

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __le__(self, o):
        for k, v in self.d.items():
            if k not in o.d or o.d[k] != v:
                return False
        return True

    def __ge__(self, o):
        return o <= self

    def __add__(self, o):
        return self.m_union_prefer_right(o)

    def __sub__(self, ks):
        return FMap((k, v) for k, v in self.d.items() if k not in ks)

    m_submap_of = __le__

    def m_dom(self):
        return FSet(self.d)

    def m_contains_key(self, k):
        return k in self.d

    m_contains = m_contains_key

    def m_contains_pair(self, k, v):
        return k in self.d and self.d[k] == v

    def m_contains_value(self, v):
        return any(x == v for x in self.d.values())

    def m_values(self):
        return FSet(self.d.values())

    def m_insert(self, k, v):
        if not (determined(k) and determined(v)):
            raise Unbound()
        d = dict(self.d)
        d[k] = v
        return FMap(d)

    def m_remove(self, k):
        d = dict(self.d)
        d.pop(k, None)
        return FMap(d)

    def m_remove_keys(self, ks):
        return FMap((k, v) for k, v in self.d.items() if not ks.m_contains(k))

    def m_restrict(self, ks):
        return FMap((k, v) for k, v in self.d.items() if ks.m_contains(k))

    def m_union_prefer_right(self, o):
        d = dict(self.d)
        d.update(o.d)
        return FMap(d)

    def m_union_prefer_left(self, o):
        d = dict(o.d)
        d.update(self.d)
        return FMap(d)

    def m_agrees(self, o):
        a, b = (self.d, o.d) if len(self.d) < len(o.d) else (o.d, self.d)
        return all(k not in b or b[k] == v for k, v in a.items())

    def m_len(self):
        return len(self.d)

    def m_is_empty(self):
        return not self.d

    def m_finite(self):
        return True

    def m_view(self):
        return self

    def m_map_values(self, f):
        return FMap((k, f(v)) for k, v in self.d.items())

    def m_map_entries(self, f):
        return FMap((k, f(k, v)) for k, v in self.d.items())

    def m_filter_keys(self, f):
        return FMap((k, v) for k, v in self.d.items() if f(k))

    def m_kv_pairs(self):
        return FSet(self.d.items())

    def m_is_injective(self):
        return len(set(self.d.values())) == len(self.d)

    def m_union_prefer(self, o):
        return self.m_union_prefer_right(o)

    def m_prepare(self):
        return self


class MSet:
    """Finite multiset."""
    __slots__ = ("d", "_h")

    def __init__(self, items=()):
        self.d = {k: v for k, v in dict(items).items() if v > 0}
        self._h = None

    @staticmethod
    def of(it):
        d = {}
        for x in it:
            d[x] = d.get(x, 0) + 1
        return MSet(d)

    def __eq__(self, o):
        if isinstance(o, LVar):
            raise Unbound()
        return isinstance(o, MSet) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(("mset", frozenset(self.d.items())))
        return self._h

    def __repr__(self):
        return "mset{" + ", ".join(f"{k!r}*{self.d[k]}" for k in sorted(self.d, key=sort_key)) + "}"

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        for k, n in self.d.items():
            for _ in range(n):
                yield k

    def __len__(self):
        return sum(self.d.values())

    def __getitem__(self, k):
        return self.d.get(k, 0)

    def m_count(self, k):
        return self.d.get(k, 0)

    def m_contains(self, k):
        return k in self.d

    def m_choose(self):
        if not self.d:
            raise Undef("choose from an empty multiset")
        return min(self.d, key=sort_key)

    def m_insert(self, k):
        d = dict(self.d)
        d[k] = d.get(k, 0) + 1
        return MSet(d)

    def m_remove(self, k):
        d = dict(self.d)
        d[k] = d.get(k, 0) - 1
        return MSet(d)

    def m_add(self, o):
        d = dict(self.d)
        for k, n in o.d.items():
            d[k] = d.get(k, 0) + n
        return MSet(d)

    __add__ = m_add

    def m_sub(self, o):
        d = dict(self.d)
        for k, n in o.d.items():
            d[k] = d.get(k, 0) - n
        return MSet(d)

    __sub__ = m_sub

    def __le__(self, o):
        return all(o.d.get(k, 0) >= n for k, n in self.d.items())

    m_subset_of = __le__

    def m_len(self):
        return len(self)

    def m_is_empty(self):
        return not self.d

    def m_dom(self):
        return FSet(self.d)

    def m_filter(self, f):
        return MSet({k: n for k, n in self.d.items() if f(k)})

    def m_is_disjoint_from(self, o):
        return not any(k in o.d for k in self.d)

    def m_view(self):
        return self


def sub(a, b):
    return a - b


def nat(x):
    if isinstance(x, int) and x < 0:
        return 0            # unspecified by the language: any number; the smallest is taken
    return x


def ediv(a, b):
    if b == 0:
        return Arb(("div0", a))
    q = abs(a) // abs(b)
    if b > 0:
        return a // b
    return -(a // -b)


def emod(a, b):
    if b == 0:
        return Arb(("mod0", a))
    return a % abs(b)


def tojson(x):
    """JSON encoding read by the TLA+ side (see specs/Vals.tla): maps are lists of {k,v} pairs, sets sorted lists."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, Data):
        d = {"_": x._variant}
        for f, s in zip(x._fields, x._slots):
            d[f if not f.isdigit() else "_" + f] = tojson(getattr(x, s))
        return d
    if isinstance(x, FSet):
        return [tojson(y) for y in sorted(x, key=sort_key)]
    if isinstance(x, FMap):
        return [{"k": tojson(k), "v": tojson(x.d[k])} for k in sorted(x.d, key=sort_key)]
    if isinstance(x, MSet):
        return [{"k": tojson(k), "n": x.d[k]} for k in sorted(x.d, key=sort_key)]
    if isinstance(x, tuple):
        return [tojson(y) for y in x]
    if isinstance(x, Arb):
        return {"_": "Arb", "id": repr(x.k)[:80]}
    raise TypeError(type(x))
