"""The containers of lib/ (Dafny), driven by random operations; every operation's result is checked against Containers."""
import random
import dfy
import harness
from rt import Undef

FILES = ["lib/DataStructures/LinearMutableMap.i.dfy", "lib/DataStructures/LinearContentMutableMap.i.dfy", "lib/DataStructures/MutableMapImpl.i.dfy",
         "lib/DataStructures/KMBtree.i.dfy", "lib/DataStructures/BitmapImpl.i.dfy", "lib/DataStructures/LruImpl.i.dfy", "lib/DataStructures/LinearLru.i.dfy",
         "lib/DataStructures/LinearDList.i.dfy", "lib/DataStructures/LinearUSeq.i.dfy", "lib/Base/MutableVec.i.dfy", "lib/Lang/LinearSequence.i.dfy"]

_prog = None
FAULTS = (Undef, AttributeError, IndexError, KeyError, ValueError, TypeError, ZeroDivisionError, RecursionError, MemoryError, OverflowError)


def program():
    global _prog
    if _prog is None:
        _prog = dfy.Program(harness.REPO, FILES)
    return _prog


def opt(x):
    """an Option as a list of at most one value"""
    return [] if x.tag in ("None", "lNone") else [x.f_value]


def iskind(d, n):
    return d.tag == n


class Kind:
    """objs holds the objects of a walk; each operation returns a label"""
    objects = 2

    def __init__(self, g, rnd):
        self.g, self.rnd = g, rnd
        self.phase(0)
        self.objs = [self.make() for _ in range(self.objects)]
        self.setup()

    def setup(self):
        pass

    def phase(self, t):
        self.p = self.rnd.choice((0.1, 0.5, 0.9))

    def new(self, o):
        self.objs[o] = self.make()
        return dict(op="new", o=o + 1)


# keys are numbers of 64 bits; a key is named by its place in this list
KEYS = sorted({0, 1, 2, 2**63, 2**64 - 1, 2**64 - 2, 2**32, 2**32 - 1} | {128 * i + 5 for i in range(60)} | {i * 0x9E3779B97F4A7C15 % 2**64 for i in range(1, 260)} | set(range(1000, 1180)))
KIDX = {k: i for i, k in enumerate(KEYS)}


class Maps(Kind):
    """three hash tables from 64-bit keys"""
    M = "LinearMutableMap."

    def phase(self, t):
        r = self.rnd
        self.p = r.choice((0.15, 0.5, 0.85, 0.95, 0.95)) if t else 0.95
        self.keys = KEYS if r.random() < 0.6 or not t else r.sample(KEYS, r.choice((3, 20, 100)))
        # few keys at a time, but every key is used in turn
        self.queue = r.choice((2, 20, 60)) if r.random() < (0.3 if t else 0.5) else 0
        self.turn, self.flip = r.randrange(len(KEYS)), False

    def make(self):
        self.size = self.rnd.choice((128, 128, 130, 200))
        return self.g(self.M + "Constructor")(self.size)

    def key(self):
        return self.rnd.choice(self.keys)

    def n(self, o):
        return int(self.objs[o].f_count)

    def ins(self, o, k, v, tell):
        f = self.g(self.M + ("InsertAndGetOld" if tell else "Insert"))
        r = f(self.objs[o], k, v)
        if tell:
            self.objs[o], old = r
            return opt(old)
        self.objs[o] = r
        return []

    def rem(self, o, k, tell):
        r = self.g(self.M + ("RemoveAndGet" if tell else "Remove"))(self.objs[o], k)
        if tell:
            self.objs[o], old = r
            return opt(old)
        self.objs[o] = r
        return []

    def get(self, o, k):
        return opt(self.g(self.M + "Get")(self.objs[o], k))

    def items(self, o, simple):
        g, m, out = self.g, self.objs[o], []
        if simple:
            it = g(self.M + "SimpleIterStart")(m)
            while len(out) < 1000:
                nx = g(self.M + "SimpleIterOutput")(m, it)
                if iskind(nx, "Done"):
                    break
                out.append([int(nx.f_key), nx.f_value])
                it = g(self.M + "SimpleIterInc")(m, it)
        else:
            it = g(self.M + "IterStart")(m)
            while not iskind(it.f_next, "Done") and len(out) < 1000:
                out.append([int(it.f_next.f_key), it.f_next.f_value])
                it = g(self.M + "IterInc")(m, it)
        return out

    def setat(self, o, k, v):
        g, m = self.g, self.objs[o]
        it = g(self.M + "FindSimpleIter")(m, k)
        found = not iskind(g(self.M + "SimpleIterOutput")(m, it), "Done")
        if found:
            self.objs[o] = g(self.M + "UpdateByIter")(m, it, v)
        return found

    def maxkey(self, o):
        return int(self.g(self.M + "MaxKey")(self.objs[o]))

    def clone(self, o):
        return self.g(self.M + "Clone")(self.objs[o])

    full = True

    def step(self):
        r = self.rnd
        o = r.randrange(2) if r.random() < 0.15 else 0
        x = r.random()
        k, v = self.key(), r.randrange(1, 1000)
        put = r.random() < self.p
        if self.queue and x < 0.72:
            o, put, self.flip = 0, not self.flip, not self.flip
            self.turn += put
            k = KEYS[(self.turn - (0 if put else self.queue)) * 7 % len(KEYS)]
        if x < 0.72:
            tell = r.random() < 0.7
            if put:
                old = self.ins(o, k, v, tell)
                return dict(op="put", o=o + 1, k=KIDX[k], v=v, tell=tell, old=old, n=self.n(o))
            old = self.rem(o, k, tell)
            return dict(op="del", o=o + 1, k=KIDX[k], tell=tell, old=old, n=self.n(o))
        if x < 0.88 or not self.full and x < 0.97:
            return dict(op="get", o=o + 1, k=KIDX[k], res=self.get(o, k))
        if x < 0.92 and self.full:
            return dict(op="setat", o=o + 1, k=KIDX[k], v=v, found=self.setat(o, k, v))
        if x < 0.95 and self.full:
            return dict(op="all", o=o + 1, items=[[KIDX.get(a, -1), b] for a, b in self.items(o, r.random() < 0.5)])
        if x < 0.975 and self.full and self.n(o):
            return dict(op="max", o=o + 1, k=KIDX.get(self.maxkey(o), -1))
        if x < 0.981 and self.full:
            self.objs[1 - o] = self.clone(o)
            return dict(op="copy", o=o + 1, to=2 - o)
        if r.random() < 0.03:
            return self.new(o)
        return dict(op="all", o=o + 1, items=[[KIDX[k], v] for k in KEYS for v in self.get(o, k)])


class ContentMaps(Maps):
    """the table of linear values"""
    M = "LinearContentMutableMap."
    full = False

    def ins(self, o, k, v, tell):
        self.objs[o], old = self.g(self.M + "Insert")(self.objs[o], k, v)
        return opt(old) if tell else []

    def rem(self, o, k, tell):
        self.objs[o], old = self.g(self.M + "Remove")(self.objs[o], k)
        return opt(old) if tell else []

    def get(self, o, k):
        if not self.g(self.M + "IsEntry")(self.objs[o].f_underlying, k):
            return []
        return [self.g(self.M + "Get")(self.objs[o], k)]


class ObjMaps(Maps):
    """the table on the heap"""
    def make(self):
        self.size = self.rnd.choice((128, 128, 130, 200))
        return new(self.g, "MutableMap.ResizingHashMap")(self.size)

    def n(self, o):
        return int(self.objs[o].f_Count)

    def ins(self, o, k, v, tell):
        if tell:
            return opt(self.objs[o].m_InsertAndGetOld(k, v))
        self.objs[o].m_Insert(k, v)
        return []

    def rem(self, o, k, tell):
        if tell:
            return opt(self.objs[o].m_RemoveAndGet(k))
        self.objs[o].m_Remove(k)
        return []

    def get(self, o, k):
        return opt(self.objs[o].m_Get(k))

    def items(self, o, simple):
        m, out = self.objs[o], []
        if simple:
            it = m.m_SimpleIterStart()
            while len(out) < 1000:
                nx = m.m_SimpleIterOutput(it)
                if iskind(nx, "Done"):
                    break
                out.append([int(nx.f_key), nx.f_value])
                it = m.m_SimpleIterInc(it)
        else:
            it = m.m_IterStart()
            while not iskind(it.f_next, "Done") and len(out) < 1000:
                out.append([int(it.f_next.f_key), it.f_next.f_value])
                it = m.m_IterInc(it)
        return out

    def setat(self, o, k, v):
        m = self.objs[o]
        it = m.m_FindSimpleIter(k)
        found = not iskind(m.m_SimpleIterOutput(it), "Done")
        if found:
            m.m_UpdateByIter(it, v)
        return found

    def maxkey(self, o):
        return int(self.objs[o].m_MaxKey())

    def clone(self, o):
        return self.objs[o].m_Clone()


def new(g, name):
    cls = g(name)
    ctor = cls.find("_ctor")
    f = cls.prog.fid(ctor)
    return lambda *a: cls.prog.g[f](dfy.Obj(cls), *a)


class Trees(Kind):
    """the balanced tree of byte-string keys, with small nodes"""
    T = "LKMBtree."

    def setup(self):
        import m_veribetr
        self.keys = [tuple(k) for k in m_veribetr.keyset(70)]
        self.kidx = {k: i for i, k in enumerate(self.keys)}
        self.some = self.keys

    def phase(self, t):
        if t:
            self.some = self.keys if self.rnd.random() < 0.6 else self.rnd.sample(self.keys, self.rnd.choice((4, 15)))

    def make(self):
        return self.g(self.T + "EmptyTree")()

    def step(self):
        r, g = self.rnd, self.g
        o = r.randrange(2) if r.random() < 0.3 else 0
        x = r.random()
        i = self.kidx[r.choice(self.some)]
        k, v = self.keys[i], r.randrange(1, 1000)
        t = self.objs[o]
        if x < 0.55:
            self.objs[o], old = g(self.T + "Insert")(t, k, v)
            return dict(op="put", o=o + 1, k=i, v=v, tell=True, old=opt(old), n=-1)
        if x < 0.8:
            return dict(op="get", o=o + 1, k=i, res=opt(g(self.T + "Query")(t, k)))
        if x < 0.86:
            return dict(op="size", o=o + 1, n=int(g(self.T + "CountElements")(t)))
        if x < 0.88:
            return dict(op="isempty", o=o + 1, res=bool(g(self.T + "Empty")(t)))
        if x < 0.94 and not g(self.T + "Empty")(t):
            n = r.choice(("Min", "Max"))
            return dict(op=n.lower(), o=o + 1, k=self.kidx.get(tuple(g(self.T + n + "Key")(t)), -1))
        if x < 0.96:
            if not g(self.T + "Full")(t):
                return dict(op="get", o=o + 1, k=i, res=opt(g(self.T + "Query")(t, k)))
            a, b, piv = g(self.T + "SplitNode")(t)
            # the first key that does not belong to the left part
            k = sum(1 for q in self.keys if q < tuple(piv))
            self.objs[o], self.objs[1 - o] = a, b
            return dict(op="cut", o=o + 1, to=2 - o, k=k)
        if x < 0.962:
            return self.new(o)
        return dict(op="all", o=o + 1, items=[[j, v] for j, q in enumerate(self.keys) for v in opt(g(self.T + "Query")(t, q))])


class Bitmaps(Kind):
    objects = 3

    def __init__(self, g, rnd):
        self.cap = rnd.choice((64, 128))
        super().__init__(g, rnd)

    def phase(self, t):
        super().phase(t)
        # mostly handing out free places
        self.fill = self.rnd.random() < 0.4
        if self.fill:
            self.p = 0.9

    def make(self):
        return self.g("BitmapImpl.Bitmap.Constructor")(self.cap)

    def step(self):
        r, B = self.rnd, lambda n: self.g("BitmapImpl.Bitmap." + n)
        o = r.randrange(3)
        x, k = r.random(), r.randrange(self.cap)
        if self.fill and x < 0.55 and r.random() < 0.9:
            x, o = 0.6, 0
        if x < 0.55:
            n = "Set" if r.random() < self.p else "Unset"
            self.objs[o] = B(n)(self.objs[o], k)
            return dict(op=n.lower(), o=o + 1, k=k)
        if x < 0.75:
            res = [int(i) for i in opt(B("Alloc")(self.objs[o]))]
            lab = dict(op="alloc", o=o + 1, res=res, cap=self.cap)
            if res and self.p > 0.5 and 0 <= res[0] < self.cap:
                # taken, so that the map fills up
                self.then = (o, res[0])
            return lab
        if x < 0.8:
            a, b = r.randrange(3), r.randrange(3)
            self.objs[b] = B("UnionConstructor")(self.objs[o], self.objs[a])
            return {"op": "union", "o": o + 1, "with": a + 1, "to": b + 1}
        if x < 0.83:
            b = r.randrange(3)
            self.objs[b] = B("CloneConstructor")(self.objs[o])
            return dict(op="copy", o=o + 1, to=b + 1)
        if x < 0.84:
            return self.new(o)
        return dict(op="bits", o=o + 1, bits=[i for i in range(self.cap) if B("GetIsSet")(self.objs[o], i)])

    then = None

    def follow(self):
        if self.then:
            (o, k), self.then = self.then, None
            self.objs[o] = self.g("BitmapImpl.Bitmap.Set")(self.objs[o], k)
            return dict(op="set", o=o + 1, k=k)


def chain(d, fwd):
    """the elements of a list, following its links one way"""
    out, p = [], 0
    f = d.m_Next if fwd else d.m_Prev
    while len(out) < 2000:
        p = f(p)
        if p == 0:
            return out
        out.append([int(p), d.m_Get(p)])
    raise Undef("a list without end")


class DLists(Kind):
    def make(self):
        return self.g("DList.DList.Alloc")(self.rnd.choice((1, 2, 3, 9)))

    def step(self):
        r, D = self.rnd, lambda n: self.g("DList.DList." + n)
        o = r.randrange(2) if r.random() < 0.3 else 0
        ps = self.ptrs[o]
        x, v = r.random(), r.randrange(1, 1000)
        if x < 0.75:
            if not ps or r.random() < self.p:
                p = r.choice(ps + [0])
                n = r.choice(("After", "Before"))
                self.objs[o], q = D("Insert" + n)(self.objs[o], p, v)
                lab = dict(op=n.lower(), o=o + 1, p=int(p), v=v, new=int(q))
                ps.append(int(q))
                return lab
            p = r.choice(ps)
            ps.remove(p)
            self.objs[o] = D("Remove")(self.objs[o], p)
            return dict(op="remove", o=o + 1, p=p)
        if x < 0.77:
            self.objs[1 - o] = D("Clone")(self.objs[o])
            self.ptrs[1 - o] = list(ps)
            return dict(op="copy", o=o + 1, to=2 - o)
        if x < 0.78:
            self.ptrs[o] = []
            return self.new(o)
        d = View(self.g, "DList.DList.", self.objs[o])
        return dict(op="walk", o=o + 1, fwd=chain(d, True), back=chain(d, False))

    def setup(self):
        self.ptrs = [[], []]


class View:
    def __init__(self, g, pre, x):
        self.g, self.pre, self.x = g, pre, x

    def __getattr__(self, n):
        f = self.g(self.pre + n[2:])
        return lambda *a: f(self.x, *a)


class Lrus(Kind):
    T = "LinearLru.LinearLru."
    objects = 1

    def phase(self, t):
        super().phase(t)
        self.keys = list(range(len(KEYS))) if self.rnd.random() < 0.5 else self.rnd.sample(range(len(KEYS)), 6)

    def make(self):
        return self.g(self.T + "Alloc")()

    def put(self, o, k):
        self.objs[o] = self.g(self.T + "Use")(self.objs[o], KEYS[k])
        return dict(op="use", o=o + 1, k=k)

    def drop(self, o, k):
        self.objs[o] = self.g(self.T + "Remove")(self.objs[o], KEYS[k])

    def first(self, o):
        return opt(self.g(self.T + "NextOpt")(self.objs[o]))

    def sure(self, o):
        return self.g(self.T + "Next")(self.objs[o])

    def order(self, o):
        d = View(self.g, "DList.DList.", self.objs[o].f_dlist)
        return [v for _, v in chain(d, True)], [v for _, v in chain(d, False)]

    def extra(self, o):
        return None

    def step(self):
        r = self.rnd
        o = r.randrange(self.objects)
        x, k = r.random(), r.choice(self.keys)
        if x < 0.65:
            if r.random() < self.p:
                return self.put(o, k)
            self.drop(o, k)
            return dict(op="drop", o=o + 1, k=k)
        if x < 0.85:
            res = [KIDX.get(int(v), -1) for v in self.first(o)]
            if res and r.random() < 0.5:
                res = [KIDX.get(int(self.sure(o)), -1)]
            return dict(op="first", o=o + 1, res=res)
        if x < 0.9:
            lab = self.extra(o)
            if lab:
                return lab
        a, b = self.order(o)
        return dict(op="order", o=o + 1, vals=[KIDX.get(int(v), -1) for v in a], back=[KIDX.get(int(v), -1) for v in b])


class ObjLrus(Lrus):
    def make(self):
        return new(self.g, "LruImpl.LruImplQueue")()

    def put(self, o, k):
        self.objs[o].m_Use(KEYS[k])
        return dict(op="use", o=o + 1, k=k)

    def drop(self, o, k):
        self.objs[o].m_Remove(KEYS[k])

    def first(self, o):
        return opt(self.objs[o].m_NextOpt())

    def sure(self, o):
        return self.objs[o].m_Next()

    def extra(self, o):
        return dict(op="count", o=o + 1, n=int(self.objs[o].m_Count()))

    def order(self, o):
        out = []
        for at, link in (("f_head_node", "f_next"), ("f_tail_node", "f_prev")):
            n, l = getattr(self.objs[o], at), []
            while n is not None:
                l.append(n.f_value)
                n = getattr(n, link)
                if len(l) > 2000:
                    raise Undef("a list without end")
            out.append(l)
        return out


class USeqs(Lrus):
    T = "USeq.USeq."
    objects = 2

    def put(self, o, k):
        self.objs[o] = self.g(self.T + "Add")(self.objs[o], KEYS[k])
        return dict(op="add", o=o + 1, k=k)

    def first(self, o):
        return opt(self.g(self.T + "FirstOpt")(self.objs[o]))

    def sure(self, o):
        return self.g(self.T + "First")(self.objs[o])

    def extra(self, o):
        self.objs[1 - o] = self.g(self.T + "Clone")(self.objs[o])
        return dict(op="copy", o=o + 1, to=2 - o)


class Vecs(Kind):
    objects = 1

    def make(self):
        self.n = 0
        return new(self.g, "MutableVec.Vec")(self.rnd.choice((1, 2, 5)))

    def step(self):
        r, o = self.rnd, 0
        x, v, m = r.random(), r.randrange(1, 1000), self.objs[0]
        if x < 0.65:
            if r.random() < self.p or self.n == 0:
                m.m_insert(v)
                self.n += 1
                return dict(op="push", o=1, v=v)
            self.n -= 1
            if r.random() < 0.4 and self.n > 0:
                return dict(op="pop", o=1, v=m.m_pop())
            p = r.randrange(self.n + 1)
            return dict(op="swapout", o=1, p=p + 1, v=m.m_removeSwap(p))
        if x < 0.8 and self.n:
            p = r.randrange(self.n)
            return dict(op="at", o=1, p=p + 1, v=m.m_get(p))
        if x < 0.81:
            return self.new(0)
        return dict(op="vals", o=1, vals=list(m.m_toSeq()))


class Seqs(Kind):
    """the operations on linear sequences"""
    def make(self):
        return ()

    def step(self):
        r, L = self.rnd, lambda n: self.g("LinearSequence_i." + n)
        o = r.randrange(2)
        s, t = self.objs[o], self.objs[1 - o]
        x, v, w = r.random(), r.randrange(1, 1000), r.randrange(1, 1000)
        n = len(s)
        a = r.randrange(n + 1)
        b = r.randrange(a, n + 1)
        if x < 0.25:
            self.objs[o] = L(r.choice(("InsertSeq", "InsertLSeq")))(s, v, a)
            return dict(op="insert", o=o + 1, p=a + 1, v=v)
        if x < 0.35:
            self.objs[1 - o] = L("AllocAndCopy")(s, a, b)
            return dict(op="slice", o=o + 1, to=2 - o, a=a, b=b)
        if x < 0.45:
            m = r.randrange(0, 2 * n + 3) % 40
            self.objs[o] = L(r.choice(("SeqResize", "SeqResizeMut")))(s, m, v)
            return dict(op="resize", o=o + 1, n=m, v=v)
        if x < 0.55 and b - a <= len(t):
            at = r.randrange(len(t) - (b - a) + 1)
            self.objs[1 - o] = L("SeqCopy")(s, t, a, b, at)
            return dict(op="blit", o=o + 1, to=2 - o, a=a, b=b, at=at)
        if x < 0.65 and n:
            p = r.randrange(n)
            self.objs[o], old = L(r.choice(("Replace1With2Lseq", "Replace1With2Lseq_inout")))(s, v, w, p)
            return dict(op="pair", o=o + 1, p=p + 1, l=v, r=w, v=old)
        if x < 0.75 and n:
            p = r.randrange(n)
            self.objs[o] = L("mut_seq_set")(s, p, v)
            return dict(op="assign", o=o + 1, p=p + 1, v=v)
        if x < 0.8:
            # the whole sequence is given away, a part of it kept
            rest, loot = L("AllocAndMoveLseq")(s, a, b)
            self.objs[1 - o] = loot
            self.objs[o] = loot
            self.then = (o, a, b)
            return dict(op="slice", o=o + 1, to=2 - o, a=a, b=b)
        if x < 0.82:
            return self.new(o)
        return dict(op="vals", o=o + 1, vals=list(s))

    then = None

    def follow(self):
        if self.then:
            (o, a, b), self.then = self.then, None
            return dict(op="slice", o=o + 1, to=o + 1, a=a, b=b)


def kinds(p):
    g = p.get
    return {"hash table": lambda r: Maps(g, r), "hash table of linear values": lambda r: ContentMaps(g, r), "hash table on the heap": lambda r: ObjMaps(g, r),
            "balanced tree": lambda r: Trees(g, r), "bitmap": lambda r: Bitmaps(g, r), "linked list": lambda r: DLists(g, r),
            "LRU queue": lambda r: Lrus(g, r), "LRU queue on the heap": lambda r: ObjLrus(g, r), "set in order": lambda r: USeqs(g, r),
            "vector": lambda r: Vecs(g, r), "linear sequence": lambda r: Seqs(g, r)}


def walk(mk, rnd, steps):
    """one walk: a list of labels"""
    out = []
    try:
        with harness.Limited(10):
            k = mk(rnd)
    except FAULTS as e:
        return [({"op": "fault", "o": 1}, f"creating: {type(e).__name__}: {e}")]
    nxt = rnd.randrange(20, 250)
    for t in range(steps):
        if t >= nxt:
            k.phase(t)
            nxt = t + rnd.randrange(20, 250)
        try:
            with harness.Limited(10):
                lab = k.step()
                out.append((lab, ""))
                f = getattr(k, "follow", None)
                lab = f() if f else None
                if lab:
                    out.append((lab, ""))
        except FAULTS as e:
            out.append(({"op": "fault", "o": 1}, f"{type(e).__name__}: {e}"[:600]))
            break
    return out


# the sizes of the balanced tree's nodes; they differ from walk to walk
SIZES = [4, 4]
OVERRIDES = {"LKMBtree.MaxKeysPerLeaf": lambda: SIZES[0], "LKMBtree.MaxChildren": lambda: SIZES[1]}


def _job(job):
    name, seeds, steps = job
    p = program()
    mk = kinds(p)[name]
    out = []
    for s in seeds:
        r = random.Random(s * 31 + 7)
        SIZES[:] = r.choice((3, 4, 4, 5, 6, 7)), r.choice((4, 4, 5, 6))
        out.append(walk(mk, random.Random(s), steps))
    return name, out, sorted(f for f in p.calls if "." in f)


def graph(walks):
    g = harness.Graph()
    g.complete, g.depth = False, None
    g.states, g.edges, g.init = ["start"], [[]], [0]
    for w in walks:
        at = 0
        for lab, step in w:
            g.states.append(step)
            g.edges.append([])
            g.edges[at].append((lab, step or lab["op"], len(g.states) - 1))
            at = len(g.states) - 1
    return g


def check(ctx, names, nwalks, steps, workers=8):
    import multiprocessing as mp
    p = program()
    p.overrides.update(OVERRIDES)
    if p.errors:
        raise harness.ToolError(f"not parsed: {p.errors[:3]}")
    per = max(1, nwalks // 8)
    jobs = [(n, [ctx.seed * 7919 + 1000 * j + i for i in range(per)], steps) for j in range(8) for n in names]
    res = {}
    t = harness.time.time()
    with mp.get_context("fork").Pool(workers) as pool:
        for n, out, cov in pool.imap_unordered(_job, jobs, chunksize=1):
            res.setdefault(n, []).extend(out)
    ctx.log(f"walks took {harness.time.time() - t:.0f} s")
    for n in names:
        kind = "sets" if n == "bitmap" else "lists" if n in ("linked list", "LRU queue", "LRU queue on the heap", "set in order", "vector", "linear sequence") else "maps"
        empty = {"sets": "{}", "lists": "<<>>", "maps": "<<>>"}[kind]
        ctx.conform(graph(res[n]), "Containers", n, consts={"Objects": 3, "Empty": empty}, describe=str)
