"""Pivot tables and changes of prefixes (lib/Buckets, Dafny), on random tables and keys; checked against Pivots."""
import random
import dfy
import harness
import m_lib

_prog = None
MAXE = (256,)


def program():
    global _prog
    if _prog is None:
        _prog = dfy.Program(harness.REPO, ["lib/Buckets/TranslationImpl.i.dfy"])
    return _prog


class Tables(m_lib.Kind):
    objects = 0

    def __init__(self, g, rnd):
        super().__init__(g, rnd)
        E = "BoundedPivotsLib.Keyspace.Element."
        self.Elem, self.Max = g(E + "Element"), g(E + "Max_Element")
        self.Some, self.none, self.PSet = g("Options.Option.Some"), g("Options.Option.None"), g("TranslationLib.PrefixSet.PrefixSet")

    def phase(self, t):
        r = self.rnd
        self.bytes = r.choice(((0, 1, 2, 254, 255), (5, 6, 255), (0, 255), (1, 2, 3), range(256)))
        self.long = r.choice((2, 4, 6))
        self.base = [self.fresh() for _ in range(3)]

    def fresh(self):
        return tuple(self.rnd.choice(self.bytes) for _ in range(self.rnd.randrange(self.long + 1)))

    def key(self, near=()):
        """a key, often one that shares much with those at hand"""
        r = self.rnd
        x = r.random()
        pool = self.base + list(near)
        if x < 0.3:
            return self.fresh()
        b = r.choice(pool)
        b = b if b != MAXE else ()
        if x < 0.5:
            return b
        if x < 0.7:
            return b[:r.randrange(len(b) + 1)] + self.fresh()
        if x < 0.85 and b:
            # right above or below
            n = r.randrange(1, len(b) + 1)
            return b[:n - 1] + (min(255, max(0, b[n - 1] + r.choice((-1, 1)))),) + b[n:][:r.randrange(3)]
        return b + (r.choice(self.bytes),)

    def table(self):
        r = self.rnd
        n = r.choice((1, 1, 2, 3, 5, 9))
        ks = {()} if r.random() < 0.4 else set()
        for _ in range(50):
            if len(ks) > n:
                break
            ks.add(self.key(list(ks)))
        ks = sorted(ks)
        if len(ks) < 2 or r.random() < 0.5:
            ks = (ks[:-1] if len(ks) > 1 else ks) + [MAXE]
        return ks

    def up(self, k):
        return self.Max() if k == MAXE else self.Elem(k)

    def down(self, e):
        return [256] if e.tag == "Max_Element" else self.raw(e.f_e)

    @staticmethod
    def raw(k):
        return [int(c) for c in k]

    def edges(self, pt):
        """edges allowed by the table: only a range whose keys have a prefix in common can be renamed"""
        r = self.rnd
        return [self.key() if r.random() < 0.6 and self.common(a, b) else None for a, b in zip(pt, pt[1:])]

    def common(self, l, r):
        return any(l[:n] and (r == MAXE and all(c == 255 for c in l[:n]) or r != MAXE and (r <= self.above(l[:n]))) for n in range(1, len(l) + 1))

    @staticmethod
    def above(p):
        while p and p[-1] == 255:
            p = p[:-1]
        return p[:-1] + (p[-1] + 1,) if p else MAXE

    def opt(self, q):
        return self.none() if q is None else self.Some(q)

    def un(self, q):
        return [] if q.tag == "None" else [self.raw(q.f_value)]

    def step(self):
        r, B, T = self.rnd, (lambda n: self.g("BoundedPivotsLib." + n)), (lambda n: self.g("TranslationImpl." + n))
        pt = self.table()
        dp = tuple(self.up(k) for k in pt)
        P = [self.raw(k) for k in pt]
        k = self.key(pt)
        K = self.raw(k)
        bounded = pt[0] <= k < pt[-1] if pt[-1] != MAXE else pt[0] <= k
        leftable = pt[0] < k and (pt[-1] == MAXE or k <= pt[-1])
        et = self.edges(pt)
        de = tuple(self.opt(q) for q in et)
        ET = [[] if q is None else [self.raw(q)] for q in et]
        x = r.randrange(26)
        if x < 3:
            if not bounded or x == 0:
                return dict(op="bounded", pt=P, k=K, res=bool(B("ComputeBoundedKey")(dp, k)))
            return dict(op="route", pt=P, k=K, i=int(B("ComputeRoute")(dp, k)) + 1)
        if x == 3:
            return dict(op="total", pt=P, res=bool(B("ComputeContainsAllKeys")(dp)))
        if x == 4:
            a, b = sorted((k, self.key(pt)))
            b = MAXE if a == b or r.random() < 0.2 else b
            return dict(op="range", pt=P, l=self.raw(a), r=self.raw(b), res=bool(B("ComputeContainsRange")(dp, self.up(a), self.up(b))))
        if x == 5:
            return dict(op="leftable", pt=P, k=K, res=bool(B("ComputeValidLeftCutOffKey")(dp, k)))
        if x == 6:
            i = r.randrange(len(pt) - 1)
            if r.random() < 0.05:
                return dict(op="initial", pt=[self.down(e) for e in B("InitPivotTable")()])
            return dict(op="key", pt=P, i=i + 1, k=self.raw(B("ComputeGetKey")(dp, i)))
        if x < 9:
            i = r.randrange(len(pt) + 2)
            if r.random() < 0.6:
                i = sum(1 for p in pt if p < k)
            return dict(op="insertable", pt=P, i=i, k=K, res=bool(B("ComputePivotInsertable")(dp, i, k)))
        if x < 12:
            if not leftable:
                return dict(op="leftable", pt=P, k=K, res=bool(B("ComputeValidLeftCutOffKey")(dp, k)))
            c = B("ComputeCutoffForLeft")(dp, k)
            if x == 9:
                return dict(op="cutleft", pt=P, k=K, i=int(c) + 1)
            d2 = B("ComputeSplitLeft")(dp, k, c)
            if x == 10:
                return dict(op="left", pt=P, k=K, res=[self.down(e) for e in d2])
            e2 = T("ComputeSplitLeftEdges")(de, dp, d2, k, c)
            return dict(op="edges", pt=P, et=ET, pt2=[self.down(e) for e in d2], et2=[self.un(e) for e in e2])
        if x < 15:
            if not bounded:
                return dict(op="bounded", pt=P, k=K, res=bool(B("ComputeBoundedKey")(dp, k)))
            c = B("ComputeCutoffForRight")(dp, k)
            if x == 12:
                return dict(op="cutright", pt=P, k=K, i=int(c) + 1)
            d2 = B("ComputeSplitRight")(dp, k, c)
            if x == 13:
                return dict(op="right", pt=P, k=K, res=[self.down(e) for e in d2])
            e2 = T("ComputeSplitRightEdges")(de, dp, d2, k, c)
            return dict(op="edges", pt=P, et=ET, pt2=[self.down(e) for e in d2], et2=[self.un(e) for e in e2])
        if x < 17:
            i = r.randrange(len(pt) - 1)
            a, b = self.up(pt[i]), self.up(pt[i + 1])
            if r.random() < 0.5:
                return dict(op="lcp", l=P[i], r=P[i + 1], res=self.raw(T("ComputePivotLcp")(a, b)))
            return dict(op="lcplen", l=P[i], r=P[i + 1], n=int(T("ComputePivotLcpLen")(a, b)))
        if x == 17:
            return dict(op="upper", p=K, res=self.down(T("ComputeShortestUncommonPrefix")(k)))
        if x < 20:
            if not bounded:
                k = pt[r.randrange(len(pt) - 1)]
                K = self.raw(k)
            i = B("ComputeRoute")(dp, k)
            if x == 18:
                return dict(op="name", pt=P, et=ET, k=K, res=self.raw(T("ComputeTranslateKey")(dp, de, k, i)))
            c = T("ComputeTranslatePrefixSet")(dp, de, k, i)
            return dict(op="change", pt=P, et=ET, k=K, res=self.change(c))
        if x == 20:
            p = self.key()
            q = p[:r.randrange(len(p) + 1)] if r.random() < 0.5 else p + self.fresh()
            a = None if r.random() < 0.2 else (p, self.key())
            b = None if r.random() < 0.2 else (q, self.key())
            c = T("ComputeComposePrefixSet")(*(self.opt(z and self.PSet(*z)) for z in (a, b)))
            return dict(op="compose", a=[self.raw(z) for z in a or ()], b=[self.raw(z) for z in b or ()], res=self.change(c))
        if x < 23:
            i = r.randrange(len(pt) - 1)
            l, rr = pt[i], pt[i + 1]
            p, q = l[:r.randrange(len(l) + 1)], self.key()
            if x == 21 and r.random() < 0.3:
                return dict(op="element", l=P[i], p=self.raw(p), q=self.raw(q), res=self.down(T("ComputeTranslateElement")(self.up(l), p, q)))
            l2, r2 = T("ComputeTranslatePivotPair")(l, self.up(rr), p, q)
            return dict(op="pair", l=P[i], r=P[i + 1], p=self.raw(p), q=self.raw(q), l2=self.raw(l2), r2=self.down(r2))
        if x == 23:
            p, q = self.key(), self.key()
            ks = sorted({p + self.fresh() for _ in range(r.randrange(1, 6))})
            end = MAXE if r.random() < 0.3 else self.above(q + ks[-1][len(p):])
            t = T("ComputeTranslatePivots")(tuple(self.up(z) for z in ks) + (self.Max(),), p, q, self.up(end))
            return dict(op="pivots", pt=[self.raw(z) for z in ks] + [[256]], p=self.raw(p), q=self.raw(q), end=self.raw(end), res=[self.down(e) for e in t])
        if x == 24:
            return dict(op="alledges", pt=P, et=ET, res=[self.un(e) for e in T("ComputeTranslateEdges")(de, dp)])
        child = self.table()
        i = r.randrange(len(pt) - 1)
        if r.random() < 0.6:
            # a child whose range is close to what the parent needs
            c = et[i]
            if c is None:
                lo, hi = pt[i], pt[i + 1]
            else:
                n = max(n for n in range(len(pt[i]) + 1) if n == 0 or pt[i + 1] != MAXE and pt[i + 1] <= self.above(pt[i][:n]) or all(z == 255 for z in pt[i][:n]))
                lo = c + pt[i][n:]
                hi = c + pt[i + 1][n:] if pt[i + 1][:n] == pt[i][:n] else self.above(c)
            lo = lo if r.random() < 0.7 else self.key([lo])
            hi = hi if r.random() < 0.7 else self.key([hi])
            if lo < hi and lo != MAXE:
                child = [lo, hi]
        return dict(op="covers", pt=P, et=ET, i=i + 1, child=[self.raw(z) for z in child],
                    res=bool(T("ComputeParentKeysInChildRange")(dp, de, tuple(self.up(z) for z in child), i)))

    def change(self, c):
        return [] if c.tag == "None" else [self.raw(c.f_value.f_prefix), self.raw(c.f_value.f_newPrefix)]


def _job(job):
    seeds, steps = job
    p = program()
    return [m_lib.walk(lambda r: Tables(p.get, r), random.Random(s), steps) for s in seeds], sorted(f for f in p.calls if "." in f)


def check(ctx, nwalks, steps, workers=8):
    import multiprocessing as mp
    p = program()
    if p.errors:
        raise harness.ToolError(f"not parsed: {p.errors[:3]}")
    per = max(1, nwalks // 16)
    jobs = [([ctx.seed * 7919 + 1000 * j + i for i in range(per)], steps) for j in range(16)]
    walks, cov, t = [], set(), harness.time.time()
    with mp.get_context("fork").Pool(workers) as pool:
        for out, c in pool.imap(_job, jobs, chunksize=1):
            walks += out
            cov |= set(c)
    ctx.log(f"{len(walks)} walks in {harness.time.time() - t:.0f} s, {len(cov)} functions of the repository executed")
    n = max(1, len(walks) * steps // 60000)
    for i in range(n):
        if not ctx.conform(m_lib.graph(walks[i::n]), "Pivots", "pivot tables" + (f", part {i + 1}" if i else ""), consts={}, describe=str, timeout=800):
            break
