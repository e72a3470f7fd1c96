"""The buckets of lib/Buckets, their packed forms, flushes and scans (Dafny), driven by random operations; checked against Buckets."""
import functools
import random
import dfy
import harness
import m_lib
import m_veribetr
from m_lib import FAULTS, opt

FILES = ["lib/Buckets/BucketImpl.i.dfy", "lib/Buckets/TranslationImpl.i.dfy", "Impl/BucketGeneratorImpl.i.dfy"]
_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = dfy.Program(harness.REPO, FILES)
        # small nodes in the trees, so that they split
        _prog.overrides.update({"LKMBtree.MaxKeysPerLeaf": lambda: 4, "LKMBtree.MaxChildren": lambda: 4,
                                "Bounds.MaxTotalBucketWeightUint64": lambda: MAX[0]})
    return _prog


MAX = [2000]
KEYS = [tuple(k) for k in m_veribetr.keyset(70)]
KIDX = {k: i + 1 for i, k in enumerate(KEYS)}
PREFIXES = sorted({k[:n] for k in KEYS for n in range(1, len(k) + 1)})


def val(v):
    return () if v == 0 else (v % 256, v // 256) + (7,) * (6 * (v % 5))


def num(b):
    b = tuple(int(c) for c in b)
    if not b:
        return 0
    v = b[0] + 256 * b[1] if len(b) > 1 else -1
    return v if v > 0 and val(v) == b else -1


def raw(k):
    return [int(c) for c in k]


class Buckets(m_lib.Kind):
    objects = 8
    B = "BucketImpl.MutBucket."

    def __init__(self, g, rnd):
        super().__init__(g, rnd)
        self.Define, self.Update = g("ValueMessage.Define"), g("ValueMessage.Update")
        self.NoDelta = g("ValueMessage.Delta.NoDelta")
        self.Elem, self.Max = g("BoundedPivotsLib.Keyspace.Element.Element"), g("BoundedPivotsLib.Keyspace.Element.Max_Element")
        self.Some, self.none, self.PSet = g("Options.Option.Some"), g("Options.Option.None"), g("TranslationLib.PrefixSet.PrefixSet")
        self.todo = []

    def make(self):
        return self.g(self.B + "Alloc")()

    def m(self, name, *a):
        return self.g(self.B + name)(*a)

    def phase(self, t):
        r = self.rnd
        self.some = KEYS if r.random() < 0.5 else r.sample(KEYS, r.choice((3, 12, 30)))
        self.fill = r.choice((0.2, 0.4, 0.7))

    def pkv(self, o, flag=False):
        return self.m("GetPkvSorted", self.objs[o], flag)

    def items(self, pkv):
        P = "PackedKV."
        n = int(self.g(P + "NumKVPairs")(pkv))
        out = []
        for i in range(n):
            msg = self.g(P + "GetMessage")(pkv, i)
            out.append([self.g(P + "GetKey")(pkv, i), num(msg.f_value) if msg.tag == "Define" else -2])
        return out

    def all(self, o):
        return dict(op="all", o=o + 1, items=[[KIDX.get(tuple(raw(k)), 0), v] for k, v in self.items(self.pkv(o, self.rnd.random() < 0.5))])

    def weigh(self, o):
        return dict(op="weight", o=o + 1, n=int(self.objs[o].f_weight))

    def keys(self, o):
        return [KIDX.get(tuple(raw(k)), 0) for k, _ in self.items(self.pkv(o))]

    def check(self, *os):
        for o in os:
            self.todo.append(lambda o=o: self.all(o))
            self.todo.append(lambda o=o: self.weigh(o))

    def follow(self):
        return self.todo.pop(0)() if self.todo else None

    def pivots(self, n):
        piv = sorted(self.rnd.sample(range(2, len(KEYS) + 1), n - 1))
        return piv, (self.Elem(()),) + tuple(self.Elem(KEYS[i - 1]) for i in piv) + (self.Max(),)

    def step(self):
        if self.todo:
            return self.todo.pop(0)()
        r = self.rnd
        o = r.randrange(self.objects)
        to = r.choice([i for i in range(self.objects) if i != o])
        b = self.objs[o]
        k = KIDX[r.choice(self.some)] if r.random() < 0.9 else r.randrange(1, len(KEYS) + 1)
        key = KEYS[k - 1]
        x = r.random()
        if x < self.fill:
            if r.random() < 0.03:
                self.objs[o] = self.m("Insert", b, key, self.Update(self.NoDelta()))
                return dict(op="nop", o=o + 1)
            v = r.randrange(1, 1000) if r.random() < 0.9 else 0
            self.objs[o] = self.m("Insert", b, key, self.Define(val(v)))
            return dict(op="put", o=o + 1, k=k, v=v)
        x = r.randrange(26)
        if x < 3:
            q = opt(self.m("Query", b, key))
            return dict(op="get", o=o + 1, k=k, res=[num(z.f_value) if z.tag == "Define" else -2 for z in q])
        if x == 3:
            return self.all(o)
        if x == 4:
            return self.weigh(o)
        if x == 5:
            return dict(op="isempty", o=o + 1, res=bool(self.m("Empty", b)))
        if x == 6:
            return dict(op="sorted", o=o + 1, res=bool(self.m("WellMarshalled", b)))
        if x == 7:
            if self.m("Empty", b):
                return dict(op="isempty", o=o + 1, res=True)
            n = r.choice(("First", "Last"))
            return dict(op=n.lower(), o=o + 1, k=KIDX.get(tuple(raw(self.m(f"Get{n}Key", b))), 0))
        if x == 8:
            return dict(op="middle", o=o + 1, k=KIDX.get(tuple(raw(self.m("GetMiddleKey", b))), 0))
        if x == 9:
            n = r.choice(("left", "right"))
            self.objs[to] = self.m("Split" + n.title(), b, key)
            self.check(to)
            return dict(op=n, o=o + 1, to=to + 1, k=k)
        if x == 10:
            self.objs[o], self.objs[to] = self.m("SplitLeftRight", b, key)
            self.check(o, to)
            return dict(op="cut", o=o + 1, to=to + 1, k=k)
        if x == 11:
            # a list of buckets; the spare one is added by the split
            os = r.sample([i for i in range(self.objects) if i != to], r.randrange(1, 5))
            s = r.randrange(len(os))
            lst = self.m("SplitOneInList", tuple(self.objs[i] for i in os), s, key)
            dst = os[:s + 1] + [to] + os[s + 1:]
            if len(lst) != len(dst):
                return dict(op="length", o=1)
            for i, z in zip(dst, lst):
                self.objs[i] = z
            self.check(*dst)
            return dict(op="cut", o=os[s] + 1, to=to + 1, k=k)
        if x == 12:
            os = r.sample(range(self.objects), r.randrange(1, 5))
            lst = tuple(self.objs[i] for i in os)
            if r.random() < 0.5:
                return dict(op="weights", o=1, os=[i + 1 for i in os], n=int(self.m("computeWeightOfSeq", lst)))
            a = r.randrange(len(os) + 1)
            e = r.randrange(a, len(os) + 1)
            ok, n = self.m("tryComputeWeightOfSeq", lst, a, e)
            return dict(op="weights", o=1, os=[i + 1 for i in os[a:e]], n=int(n) if ok else -1)
        if x == 13:
            self.objs[to] = self.m("Clone", b)
            self.check(to)
            return dict(op="copy", o=o + 1, to=to + 1)
        if x == 14:
            return self.lists()
        if x == 15:
            p = r.choice(PREFIXES) if r.random() < 0.8 else (9,)
            if r.random() < 0.5:
                return dict(op="noprefix", o=1, os=[o + 1], p=raw(p), res=bool(self.m("NoKeyWithPrefix", b, p)))
            os = r.sample(range(self.objects), r.randrange(2, 5))
            a = r.randrange(len(os))
            e = r.randrange(a + 1, len(os) + 1)
            return dict(op="noprefix", o=1, os=[i + 1 for i in os[a:e]], p=raw(p), res=bool(self.m("SeqNoKeyWithPrefix", tuple(self.objs[i] for i in os), p, a, e)))
        if x == 16:
            pk = self.pkv(o)
            f = r.choice(("gte", "gt", "lte", "lower"))
            S = "PackedKV.PSA."
            if f == "lte":
                return dict(op="lte", o=o + 1, k=k, n=int(self.g(S + "LargestLte")(pk.f_keys, key)))
            if f == "lower":
                lo = r.choice([j for j, (q, _) in enumerate([((), 0)] + self.items(pk)) if j == 0 or tuple(raw(q)) < key])
                return dict(op="gte", o=o + 1, k=k, n=int(self.g(S + "BinarySearchIndexOfFirstKeyGteWithLowerBound")(pk.f_keys, key, lo)))
            n = self.g(S + "BinarySearchIndexOfFirstKey" + f.title())(pk.f_keys, key)
            return dict(op=f, o=o + 1, k=k, n=int(n))
        if x == 17:
            pk = self.pkv(o, True)
            n = int(self.g("PackedKV.NumKVPairs")(pk))
            a = r.randrange(n + 1)
            e = r.randrange(a, n + 1)
            self.objs[to] = self.m("AllocPkv", self.g("PackedKV.SubPkv")(pk, a, e), r.random() < 0.6)
            self.check(to)
            return dict(op="sub", o=o + 1, to=to + 1, a=a, b=e)
        if x == 18:
            n = r.randrange(1, 5)
            piv, pt = self.pivots(n)
            i = r.randrange(n)
            return dict(op="within", o=o + 1, piv=piv, i=i + 1, res=bool(self.m("WFBucketAt", b, pt, i)))
        if x == 19:
            self.objs[to] = self.m("AllocPkv", self.pkv(o, True), r.random() < 0.6)
            self.check(to)
            return dict(op="copy", o=o + 1, to=to + 1)
        if x == 20:
            p, q = self.prefix_pair()
            T = "TranslationImpl."
            if not self.g(T + "ComputeTranslateBucketWillFit")(b, p, q):
                return dict(op="fits", o=1)
            if r.random() < 0.5:
                t = self.g(T + "ComputeTranslateBucket")(b, p, q)
                return self.translated(o, p, q, t)
            os = r.sample(range(self.objects), r.randrange(2, 5))
            lst = tuple(self.objs[i] for i in os)
            c = r.randrange(len(os))
            if not self.g(T + "ComputeTranslateBucketsWillFit")(lst, p, q):
                return dict(op="fits", o=1)
            if len(os) > c + 1 and r.random() < 0.5:
                cl = r.randrange(c + 1, len(os))
                out = self.g(T + "ComputeTranslateCutOffNodeBuckets")(lst, b, self.objs[to], p, q, cl, c)
                src = [o] + os[c + 1:cl] + [to]
            else:
                out = self.g(T + "ComputeTranslateCutOffKeepRightBuckets")(lst, b, p, q, c)
                src = [o] + os[c + 1:]
            if len(out) != len(src):
                return dict(op="length", o=1)
            self.todo += [lambda z=z, t=t: self.translated(z, p, q, t) for z, t in zip(src, out)]
            return dict(op="nop", o=1)
        if x < 23:
            return self.scan()
        if x < 25:
            return self.flush()
        return self.new(o)

    def translated(self, o, p, q, t):
        return dict(op="translate", o=o + 1, change=[raw(p), raw(q)], items=[[raw(k), v] for k, v in self.items(self.m("GetPkv", t))])

    def prefix_pair(self):
        r = self.rnd
        p = r.choice(PREFIXES)
        return p, r.choice(PREFIXES) if r.random() < 0.6 else tuple(r.randrange(256) for _ in range(r.randrange(0, 3)))

    def lists(self):
        """moves of lists of buckets"""
        r = self.rnd
        os = r.sample(range(self.objects), r.randrange(3, 7))
        lst = tuple(self.objs[i] for i in os)
        n = len(os)
        how = r.randrange(4)
        if how == 0:
            s = r.randrange(n + 1)
            a, b = self.m("SplitSeq", lst, s)
            out = tuple(a) + tuple(b)
            if len(a) != s:
                return dict(op="length", o=1)
        elif how == 1:
            s = r.randrange(n)
            out = self.m("BucketListConcat", lst[:s], lst[s], lst[s + 1:])
        elif how == 2:
            s = r.randrange(n - 1)
            t = r.randrange(s + 1, n)
            out = self.m("BucketListConcat3", lst[:s], lst[s], lst[s + 1:t], lst[t], lst[t + 1:])
        else:
            s = r.randrange(n)
            t = r.randrange(s, n + 1)
            out = lst[:s] + tuple(self.m("CloneSeq", lst, s, t)) + lst[t:]
        if len(out) != n:
            return dict(op="length", o=1)
        for i, z in zip(os, out):
            self.objs[i] = z
        self.check(*os)
        return dict(op="nop", o=1)

    def flush(self):
        r = self.rnd
        n = r.randrange(1, 5)
        os = r.sample(range(self.objects), n + 1)
        top, bots = os[0], os[1:]
        MAX[0] = 100000
        piv, pt = self.pivots(n)
        # whatever the bottom buckets hold: their keys must belong to their place
        for i, o in enumerate(bots):
            if not all(1 + sum(1 for p in piv if p <= k) == i + 1 for k in self.keys(o)):
                self.objs[o] = self.make()
                self.todo.append(lambda o=o: dict(op="new", o=o + 1))
                for k in range(1, len(KEYS) + 1):
                    if 1 + sum(1 for p in piv if p <= k) == i + 1 and r.random() < 0.2:
                        v = r.randrange(0, 1000)
                        self.objs[o] = self.m("Insert", self.objs[o], KEYS[k - 1], self.Define(val(v)))
                        self.todo.append(lambda o=o, k=k, v=v: dict(op="put", o=o + 1, k=k, v=v))
        w = [int(self.objs[o].f_weight) for o in bots]
        t = int(self.objs[top].f_weight)
        MAX[0] = max(t, sum(w)) + r.choice((0, 0, r.randrange(0, t + 20), t, t + 50, t - 1))
        MAX[0] = max(MAX[0], t, sum(w))
        limit = MAX[0]

        def go():
            MAX[0] = limit
            out, rest = self.g("BucketImpl.PartialFlush")(tuple(self.objs[o] for o in bots), self.objs[top], pt)
            if len(out) != len(bots):
                return dict(op="length", o=1)
            for o, z in zip(bots, out):
                self.objs[o] = z
            self.objs[top] = rest
            self.check(top, *bots)
            return dict(op="flush", o=1, top=top + 1, bots=[o + 1 for o in bots], piv=piv, kept=self.keys(top), max=limit)
        if not self.todo:
            return go()
        self.todo.append(go)
        return self.todo.pop(0)()

    def scan(self):
        r, G = self.rnd, "BucketGeneratorImpl.Generator."
        os = r.sample(range(self.objects), r.randrange(1, 5))
        start = r.choice(KEYS + PREFIXES) if r.random() < 0.8 else None
        incl = r.random() < 0.5
        layers, gens = [], []
        for i, o in enumerate(os):
            change = None
            if start is not None and (r.random() < 0.3):
                # the layer's keys have another prefix than they are seen with
                n = r.randrange(len(start) + 1)
                change = (r.choice(PREFIXES), start[:n])
            k2 = start if change is None else change[0] + start[len(change[1]):]
            s = self.g("UI.RangeStart.NegativeInf")() if start is None else self.g("UI.RangeStart." + ("SInclusive" if incl else "SExclusive"))(start)
            ps = self.none() if change is None else self.Some(self.PSet(*change))
            gens.append(self.g(G + "GenFromBucketWithLowerBound")(self.objs[o], s, k2 if start is not None else (), ps))
            layers.append(dict(o=o + 1, change=[raw(z) for z in change] if change else []))
        gen = gens[-1]
        for z in reversed(gens[:-1]):
            gen = self.g(G + "GenCompose")(z, gen)
        items, limit, stopped = [], r.choice((1, 3, 1000)), False
        while True:
            nx = self.g(G + "GenLeft")(gen)
            if nx.tag == "Done":
                break
            if len(items) >= limit:
                stopped = True
                break
            items.append([raw(nx.f_key), num(nx.f_msg.f_value) if nx.f_msg.tag == "Define" else -2])
            gen = self.g(G + "GenPop")(gen)
        return dict(op="scan", o=1, layers=layers, start=[raw(start)] if start is not None else [], incl=incl, items=items, stopped=stopped)


def _job(job):
    seeds, steps = job
    p = program()
    out = [m_lib.walk(lambda r: Buckets(p.get, r), random.Random(s), steps) for s in seeds]
    return out, sorted(f for f in p.calls if "." in f)


def check(ctx, nwalks, steps, workers=8):
    import multiprocessing as mp
    p = program()
    if p.errors:
        raise harness.ToolError(f"not parsed: {p.errors[:3]}")
    per = max(1, nwalks // 16)
    jobs = [([ctx.seed * 7919 + 1000 * j + i for i in range(per)], steps) for j in range(16)]
    walks, cov, t = [], set(), harness.time.time()
    with mp.get_context("fork").Pool(workers) as pool:
        for out, c in pool.imap(_job, jobs, chunksize=1):
            walks += out
            cov |= set(c)
    ctx.log(f"{len(walks)} walks in {harness.time.time() - t:.0f} s, {len(cov)} functions of the repository executed")
    n = max(1, len(walks) * steps // 40000)
    for i in range(n):
        if not ctx.conform(m_lib.graph(walks[i::n]), "Buckets", "buckets" + (f", part {i + 1}" if i else ""), consts={"Objects": 8, "Keys": [raw(k) for k in KEYS]}, describe=str, timeout=800):
            break
