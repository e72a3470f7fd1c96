"""The disk formats of VeriBetrKV (Dafny): generic values, buckets, nodes, tables, superblocks, checksums, journal blocks; checked against DiskFormats."""
import random
import dfy
import harness
import m_lib
from dfy import crc32c

_prog = None
MAXE = (256,)
WEIGHT = 500


def program():
    global _prog
    if _prog is None:
        _prog = dfy.Program(harness.REPO, ["Impl/MarshallingImpl.i.dfy", "Impl/JournalistMarshallingImpl.i.dfy", "Impl/JournalistParsingImpl.i.dfy"])
        _prog.overrides.update({"LKMBtree.MaxKeysPerLeaf": lambda: 4, "LKMBtree.MaxChildren": lambda: 4, "Bounds.MaxTotalBucketWeightUint64": lambda: WEIGHT})
    return _prog


def le(x, n=8):
    return list(int(x).to_bytes(n, "little"))


def raw(b):
    return [int(c) for c in b]


def seal(b):
    return le(crc32c(b), 4) + [0] * 28 + list(b)


def t(name, **kw):
    return dict(t=name, **kw)


STR = t("tup", es=[t("u32s"), t("bytes")])
EDGE = t("case", cs=[t("const"), t("bytes")])
BUCKET = t("tup", es=[STR, STR])
NODE = t("tup", es=[t("arr", e=t("bytes")), t("arr", e=EDGE), t("u64s"), t("arr", e=BUCKET)])
TABLE = t("arr", e=t("tup", es=[t("u64"), t("u64"), t("u64"), t("u64s")]))
SUPER = t("tup", es=[t("u64")] * 5)
SECTOR = t("case", cs=[SUPER, TABLE, NODE])
TABLE1, ROOM = 2 * 4096 + 65536 * 4096, 24 << 20


class Generic(m_lib.Kind):
    """values of random grammars, there and back"""
    objects = 0
    M = "GenericMarshalling."

    def __init__(self, g, rnd):
        super().__init__(g, rnd)
        G, V = self.M + "G.", self.M + "V."
        names = dict(const="Constant", u32="Uint32", u64="Uint64", arr="Array", tup="Tuple", bytes="ByteArray", u32s="Uint32Array", u64s="Uint64Array", case="")
        self.G = {k: g(G + ("G" + n if n else "GTaggedUnion")) for k, n in names.items()}
        self.V = {k: g(V + ("V" + n if n else "VCase")) for k, n in names.items()}

    def grammar(self, d=0):
        r = self.rnd
        k = r.choice(("u32", "u64", "bytes", "u32s", "u64s") if d > 2 else ("u32", "u64", "bytes", "u32s", "u64s", "arr", "arr", "tup", "tup", "case", "case", "const"))
        if k == "arr":
            e = self.grammar(d + 1)
            return t("arr", e=e if e["t"] != "const" else t("u32"))
        if k == "tup":
            return t("tup", es=[self.grammar(d + 1) for _ in range(r.randrange(4))])
        if k == "case":
            return t("case", cs=[self.grammar(d + 1) for _ in range(r.randrange(1, 4))])
        return t(k)

    def n(self):
        return self.rnd.choice((0, 1, 2, 3, 7))

    def word(self, n):
        r = self.rnd
        return r.choice((0, 1, 255, 256, 2 ** (8 * n) - 1, 2 ** (8 * n - 1), r.randrange(2 ** (8 * n)), r.randrange(2 ** 16)))

    def value(self, g):
        r, k = self.rnd, g["t"]
        if k in ("u32", "u64"):
            return le(self.word(int(k[1:]) // 8), int(k[1:]) // 8)
        if k in ("u32s", "u64s"):
            w = int(k[1:3]) // 8
            return [le(self.word(w), w) for _ in range(self.n())]
        if k == "bytes":
            return [r.randrange(256) for _ in range(self.n())]
        if k == "arr":
            return [self.value(g["e"]) for _ in range(self.n() % 4)]
        if k == "tup":
            return [self.value(e) for e in g["es"]]
        if k == "case":
            c = r.randrange(len(g["cs"]))
            return [c, self.value(g["cs"][c])]
        return []

    def dg(self, g):
        k = g["t"]
        if k == "arr":
            return self.G[k](self.dg(g["e"]))
        if k in ("tup", "case"):
            return self.G[k](tuple(self.dg(e) for e in g["es" if k == "tup" else "cs"]))
        return self.G[k]()

    def dv(self, g, v):
        """a value as the code has it"""
        k, V = g["t"], self.V
        num = lambda b: int.from_bytes(bytes(b), "little")
        if k in ("u32", "u64"):
            return V[k](num(v))
        if k in ("u32s", "u64s"):
            return V[k](tuple(num(x) for x in v))
        if k == "bytes":
            return V[k](tuple(v))
        if k == "arr":
            return V[k](tuple(self.dv(g["e"], x) for x in v))
        if k == "tup":
            return V[k](tuple(self.dv(e, x) for e, x in zip(g["es"], v)))
        if k == "case":
            return V[k](v[0], self.dv(g["cs"][v[0]], v[1]))
        return V[k]()

    def jv(self, v):
        """a value of the code as the specification has it"""
        k = v.tag
        if k == "VUint32":
            return le(v.f_v, 4)
        if k == "VUint64":
            return le(v.f_u, 8)
        if k == "VUint32Array":
            return [le(x, 4) for x in v.f_va]
        if k == "VUint64Array":
            return [le(x, 8) for x in v.f_ua]
        if k == "VByteArray":
            return raw(v.f_b)
        if k == "VArray":
            return [self.jv(x) for x in v.f_a]
        if k == "VTuple":
            return [self.jv(x) for x in v.f_t]
        if k == "VCase":
            return [int(v.f_c), self.jv(v.f_val)]
        return []

    def bytes(self, g, v):
        """the bytes of a value, written here"""
        k = g["t"]
        if k in ("u32", "u64"):
            return list(v)
        if k in ("u32s", "u64s"):
            return le(len(v)) + [b for x in v for b in x]
        if k == "bytes":
            return le(len(v)) + list(v)
        if k == "arr":
            return le(len(v)) + [b for x in v for b in self.bytes(g["e"], x)]
        if k == "tup":
            return [b for e, x in zip(g["es"], v) for b in self.bytes(e, x)]
        if k == "case":
            return le(v[0]) + self.bytes(g["cs"][v[0]], v[1])
        return []

    def hurt(self, b, also=()):
        """bytes that are damaged a little; lengths stay moderate, for the code makes room for as many values as it is told of"""
        r, b = self.rnd, list(b)
        for _ in range(r.choice((0, 1, 1, 2))):
            x = r.random()
            if x < 0.25:
                b = b[:r.randrange(len(b) + 1)]
            elif x < 0.4:
                b = b + [r.choice((0, 0, 1, 3, 255)) for _ in range(r.randrange(1, 12))]
            elif b:
                i = r.randrange(len(b))
                b[i] = r.choice((0, 1, 2, 3, 5, 8, 9, b[i] ^ 1, (b[i] + 1) % 256, (b[i] - 1) % 256, (b[i] + 4) % 256, 255))
        return b

    @staticmethod
    def huge(g, b, at):
        """would reading these bytes ask for very many values (counts are taken at their word)?"""
        lim = [False]

        def go(g, at):
            k = g["t"]
            if k in ("u32", "u64"):
                w = int(k[1:]) // 8
                return at + w if at + w <= len(b) else None
            if k == "const":
                return at
            if k == "tup":
                for e in g["es"]:
                    at = go(e, at)
                    if at is None:
                        return None
                return at
            if at + 8 > len(b):
                return None
            n = int.from_bytes(bytes(b[at:at + 8]), "little")
            at += 8
            if k == "case":
                return go(g["cs"][n], at) if n < len(g["cs"]) else None
            if k == "arr":
                if n > 3000:
                    lim[0] = True
                    return None
                for _ in range(n):
                    at = go(g["e"], at)
                    if at is None:
                        return None
                return at
            w = dict(bytes=1, u32s=4, u64s=8)[k]
            return at + n * w if n <= (len(b) - at) // w else None
        go(g, at)
        return lim[0]

    def opt(self, ok, v):
        return [self.jv(v)] if ok else []

    def step(self):
        r, f = self.rnd, lambda n: self.g(self.M + n)
        g = self.grammar()
        v = self.value(g)
        x = r.randrange(6)
        if x < 2:
            at, n = r.choice((0, 1, 5, 32)), len(self.bytes(g, v))
            before = [r.randrange(256) for _ in range(at + n + r.choice((0, 3)))]
            a = dfy.Arr(list(before))
            size = f("MarshallVal")(self.dv(g, v), self.dg(g), a, at)
            return dict(op="marshal", g=g, v=v, at=at, n=int(size), before=before, after=raw(a.a))
        if x == 2:
            if r.random() < 0.5:
                return dict(op="sizeof", g=g, v=v, n=int(f("ComputeSizeOf")(self.dv(g, v))))
            return dict(op="whole", g=g, v=v, b=raw(f("Marshall")(self.dv(g, v), self.dg(g)).a))
        at = r.choice((0, 0, 3)) if x < 5 else 0
        b = [7] * at + self.hurt(self.bytes(g, v))
        if self.huge(g, b, at):
            return dict(op="sizeof", g=g, v=v, n=int(f("ComputeSizeOf")(self.dv(g, v))))
        if x < 5:
            ok, v2, rest = f("ParseVal")(tuple(b), at, self.dg(g))
            return dict(op="parse", g=g, b=b, at=at, res=self.opt(ok, v2), rest=int(rest))
        ok, v2 = f("Demarshall")(tuple(b), self.dg(g))
        return dict(op="demarshal", g=g, b=b, res=self.opt(ok, v2))


class Sectors(Generic):
    """superblocks, tables, nodes and their parts"""
    def __init__(self, g, rnd):
        super().__init__(g, rnd)
        E = "BoundedPivotsLib.Keyspace.Element."
        self.Elem, self.Max = g(E + "Element"), g(E + "Max_Element")
        self.Some, self.none = g("Options.Option.Some"), g("Options.Option.None")

    mess = 1

    def phase(self, t):
        pass

    def odd(self, p):
        """one thing in a step may be wrong, or many, or none"""
        return self.rnd.random() < p * self.mess

    def key(self, n=4):
        r = self.rnd
        return [r.choice((0, 1, 2, 9, 254, 255)) for _ in range(r.randrange(n + 1))]

    def strings(self, n=None, big=3):
        r = self.rnd
        parts = [self.key(big) if not self.odd(0.03) else [4] * r.choice((1023, 1024, 1025)) for _ in range(self.n() if n is None else n)]
        ends, at = [], 0
        for p in parts:
            at += len(p)
            ends.append(at)
        data = [b for p in parts for b in p]
        x = r.random() / self.mess if self.mess else 1
        if x < 0.1 and ends:
            ends[r.randrange(len(ends))] += r.choice((-1, 1, 2, 256, 2 ** 31, 2 ** 32 - 5))
        elif x < 0.15:
            data = data + [1]
        elif x < 0.2 and len(ends) > 1:
            i = r.randrange(1, len(ends))
            ends[i - 1], ends[i] = ends[i], ends[i - 1]
        elif x < 0.22 and ends:
            ends.pop()
        return [[le(e % 2 ** 32, 4) for e in ends], data]

    def bucket(self):
        r = self.rnd
        n = r.choice((0, 0, 1, 2, 4, 9) if self.mess else (0, 0, 1, 1, 2, 3))
        return [self.strings(n), self.strings(self.n() if self.odd(0.05) else n, 12)]

    def pivots(self, n):
        r = self.rnd
        ks = sorted({tuple(self.key()) for _ in range(n + 1 + r.randrange(3))} - {()})[:n + 1]
        ks = [list(k) for k in ks]
        if ks and r.random() < 0.4:
            ks[0] = []
        if r.random() < 0.5 and ks:
            ks[-1] = []
        x = r.random() / self.mess if self.mess else 1
        if x < 0.06 and len(ks) > 1:
            i = r.randrange(1, len(ks))
            ks[i - 1], ks[i] = ks[i], ks[i - 1]
        elif x < 0.1 and ks:
            i = r.randrange(len(ks))
            ks[i] = r.choice(([], ks[i - 1], [3] * r.choice((1024, 1025))))
        return ks

    def together(self, l, rr):
        return bool(l) and (l[0] == 255 if not rr else rr[0] == l[0] or rr == [l[0] + 1])

    def node(self):
        r = self.rnd
        p = self.pivots(r.choice((1, 1, 2, 3, 5, 8, 9) if self.mess else (1, 1, 2, 3, 5, 8)))
        n = max(0, len(p) - 1)
        off = lambda: max(0, n + r.choice((-1, 1))) if self.odd(0.04) else n
        e = []
        for i in range(off()):
            if i < n and r.random() < 0.5 and (self.together(p[i], p[i + 1]) or self.odd(0.1)):
                e.append([1, self.key() if not self.odd(0.03) else [5] * r.choice((1024, 1025))])
            else:
                e.append([0, []])
        c = [] if r.random() < 0.3 else [le(self.word(8)) for _ in range(off())]
        b = [self.bucket() for _ in range(off())]
        if r.random() < 0.35:
            self.fill(b, WEIGHT + (r.choice((0, 0, 0, 1)) if self.mess else 0))
        return [p, e, c, b]

    def fill(self, b, goal):
        """make buckets weigh so much by growing their last messages"""
        short = goal - sum(8 * len(x[0][0]) + len(x[0][1]) + len(x[1][1]) for x in b)
        for x in reversed(b):
            ends = x[1][0]
            if short > 0 and ends and len(ends) == len(x[0][0]):
                end = int.from_bytes(bytes(ends[-1]), "little")
                if end == len(x[1][1]):
                    more = min(short, 1024 - (end - (int.from_bytes(bytes(ends[-2]), "little") if len(ends) > 1 else 0)))
                    if more > 0:
                        x[1][1] += [7] * more
                        ends[-1] = le(end + more, 4)
                        short -= more

    def addr(self):
        r = self.rnd
        x = r.random()
        if x < 0.8:
            return r.choice((153, 154, 160, 2 ** 20 - 1, 2 ** 20, 5000, 2 ** 43 - 1)) << 21
        return r.choice((152 << 21, 151 << 21, (200 << 21) + 1, (200 << 21) + 2 ** 20, 0, 4096, 8192, TABLE1, TABLE1 + ROOM, 2 ** 64 - 1, 2 ** 41 + 8, (153 << 21) - 1, 2 ** 63))

    def table(self):
        r = self.rnd
        n = r.choice((1, 2, 3, 6))
        refs = [0] + [r.choice((r.randrange(1, 9), self.word(8), 2 ** 40 + r.randrange(3))) for _ in range(n - 1)]
        if not self.odd(0.05):
            refs = list(dict.fromkeys(refs))
        if self.odd(0.05):
            refs = refs[1:]
        r.shuffle(refs)
        rows = []
        for ref in refs:
            succs = [self.word(8) if self.odd(0.02) else r.choice(refs) for _ in range(r.choice((0, 1, 2, 9 if self.odd(0.1) else 8)))]
            ln = r.choice((2 ** 21, 1, 4096)) if not self.odd(0.04) else r.choice((0, 2 ** 21 + 1, 2 ** 32 + 5, 2 ** 64 - 1))
            rows.append([le(ref), le(self.addr() if self.odd(0.2) else r.randrange(153, 400) << 21), le(ln), [le(s) for s in succs]])
        return rows

    def superblock(self):
        r = self.rnd
        if not self.mess:
            return [le(self.word(8)), le(r.choice((0, 65535, r.randrange(65536)))), le(r.choice((0, 65536, r.randrange(65537)))), le(r.choice((TABLE1, TABLE1 + ROOM))), le(r.choice((1, ROOM, r.randrange(1, ROOM))))]
        return [le(self.word(8)), le(r.choice((0, 1, 65535, 65535, 65536, 70000, 2 ** 33, r.randrange(65536)))), le(r.choice((0, 1, 65535, 65536, 65537, 2 ** 33, r.randrange(65536)))),
                le(r.choice((TABLE1, TABLE1, TABLE1 + ROOM, TABLE1 + ROOM, TABLE1 + 1, 0, 8192, TABLE1 + 2 * ROOM, TABLE1 + 2 ** 32))), le(r.choice((1, 4096, ROOM, ROOM, ROOM + 1, 0, 2 ** 32 + 1)) if r.random() < 0.6 else 500)]

    def sector(self):
        k = self.rnd.choice((0, 1, 1, 2, 2, 2))
        return [k, (self.superblock, self.table, self.node)[k]()]

    # ---- what the code says of what it has
    def elem(self, e):
        return [256] if e.tag == "Max_Element" else raw(e.f_e)

    def pkv(self, p):
        P = "PackedKV."
        out = []
        for i in range(int(self.g(P + "NumKVPairs")(p))):
            m = self.g(P + "GetMessage")(p, i)
            out.append([raw(self.g(P + "GetKey")(p, i)), raw(m.f_value) if m.tag == "Define" else [300]])
        return out

    def told(self, s):
        if s.tag == "lNone":
            return []
        s = s.f_value
        if s.tag == "SectorSuperblock":
            b = s.f_superblock
            return ["super", [le(b.f_counter), le(b.f_journalStart), le(b.f_journalLen), le(b.f_indirectionTableLoc.f_addr), le(b.f_indirectionTableLoc.f_len)]]
        if s.tag == "SectorIndirectionTable":
            L, tab, out = "LinearMutableMap.", s.f_indirectionTable.f_t, []
            it = self.g(L + "IterStart")(tab)
            while it.f_next.tag == "Next":
                v = it.f_next.f_value
                loc = v.f_loc
                out.append([le(it.f_next.f_key), le(loc.f_value.f_addr), le(loc.f_value.f_len), [le(c) for c in v.f_succs]])
                it = self.g(L + "IterInc")(tab, it)
            return ["table", out]
        n = s.f_node
        un = lambda q, f: [] if q.tag == "None" else [f(q.f_value)]
        return ["node", dict(pivots=[self.elem(e) for e in n.f_pivotTable], edges=[un(e, raw) for e in n.f_edgeTable], children=un(n.f_children, lambda c: [le(x) for x in c]),
                             buckets=[self.pkv(self.g("BucketImpl.MutBucket.GetPkv")(b)) for b in n.f_buckets])]

    def newnode(self):
        """a node of the code, with buckets in either form, and what it should say"""
        r = self.rnd
        B = "BucketImpl.MutBucket."
        for _ in range(20):
            p = self.pivots(r.choice((1, 2, 3, 8)))
            el = [tuple(k) if i == 0 or k else MAXE for i, k in enumerate(p)]
            if len(p) > 1 and all(a < b for a, b in zip(el, el[1:])) and all(len(k) <= 1024 for k in p):
                break
        else:
            p, el = [[], []], [(), MAXE]
        n = len(p) - 1
        edges = [self.key() if r.random() < 0.5 and self.together(p[i], p[i + 1]) else None for i in range(n)]
        kids = None if r.random() < 0.4 else [self.word(8) for _ in range(n)]
        ms, bs, room = [], [], WEIGHT
        for i in range(n):
            m, b = {}, self.g(B + "Alloc")()
            for _ in range(r.choice((0, 0, 1, 3, 12))):
                k, v = tuple(self.key()), tuple(self.key(12))
                w = 8 + len(k) + len(v)
                if w > room or len(m.get(k, v)) > len(v):
                    continue
                room -= w if k not in m else len(v) - len(m[k])
                b = self.g(B + "Insert")(b, k, self.g("ValueMessage.Define")(v))
                m[k] = v
            ms.append(m)
            bs.append(b)
        node = self.g("NodeImpl.Node.Node")(tuple(self.Max() if e == MAXE else self.Elem(e) for e in el), tuple(self.none() if e is None else self.Some(tuple(e)) for e in edges),
                                            self.none() if kids is None else self.Some(tuple(kids)), tuple(bs))
        return node, ["node", dict(pivots=[list(e) for e in el], edges=[[] if e is None else [e] for e in edges], children=[] if kids is None else [[le(c) for c in kids]],
                                   buckets=[[[list(k), list(v)] for k, v in sorted(m.items())] for m in ms])]

    def step(self):
        r, g = self.rnd, self.g
        x = r.randrange(16)
        self.mess = r.choice((0, 0, 0.4, 1))
        I = "MarshallingImpl."
        if x == 0:
            v = self.strings()
            q = g("PackedStringArrayMarshalling.FromVal")(self.dv(STR, v))
            P = "PackedStringArray."
            return dict(op="strings", v=v, res=[] if q.tag == "None" else [[raw(g(P + "psaElement")(q.f_value, i)) for i in range(int(g(P + "psaNumStrings")(q.f_value)))]])
        if x == 1:
            v = self.bucket()
            q = g("PackedKVMarshalling.FromVal")(self.dv(BUCKET, v))
            return dict(op="bucket", v=v, res=[] if q.tag == "None" else [self.pkv(q.f_value)])
        if x == 2:
            what = r.choice(("node", "table", "journal", "super1", "super2"))
            if what == "journal" or r.random() < 0.2:
                a = r.choice((0, 4096, 8192, 8192 + 4096 * r.randrange(65536), 8192 + 4096 * 65535, 8192 + 4096 * 65536, 8193, 2 ** 64 - 4096))
                n = r.choice((0, 4096, 4096 * r.randrange(65537), 4096 * 65536, 100, 2 ** 64 - 4096, 2 ** 64 - 1, max(0, 8192 + 4096 * 65536 - a), max(0, 8192 + 4096 * 65537 - a)))
            else:
                a, n = self.addr(), r.choice((0, 1, 4096, 2 ** 21, 2 ** 21 + 1, ROOM, ROOM + 1, 2 ** 63))
            f = dict(node="ValidNodeLocation", table="ValidIndirectionTableLocation", journal="ValidJournalLocation", super1="ValidSuperblock1Location", super2="ValidSuperblock2Location")[what]
            return dict(op="place", what=what, addr=le(a), len=le(n), res=bool(g("DiskLayout." + f)(g("DiskLayout.Location.Location")(a, n))))
        if x < 7:
            self.mess = 0
            node, s = self.newnode()
            if x == 3:
                i = r.randrange(len(node.f_buckets))
                v = g("PackedKVMarshalling.ToVal")(g("BucketImpl.MutBucket.GetPkv")(node.f_buckets[i]))
                return dict(op="packed", b=self.bytes(BUCKET, self.jv(v)), items=s[1]["buckets"][i])
            b = g(I + "MarshallCheckedSector")(g("StateSectorImpl.Sector.SectorNode")(node))
            return dict(op="write", s=s, b=raw(b.a) if b is not None and b != () else [])
        if x == 7 and r.random() < 0.5:
            for _ in range(50):
                v = self.superblock()
                n = [int.from_bytes(bytes(z), "little") for z in v]
                if n[1] < 65536 and n[2] <= 65536 and n[3] in (TABLE1, TABLE1 + ROOM) and 0 < n[4] <= ROOM:
                    sb = g("SectorType.Superblock.Superblock")(n[0], n[1], n[2], g("DiskLayout.Location.Location")(n[3], n[4]))
                    return dict(op="write", s=["super", v], b=raw(g(I + "MarshallCheckedSector")(g("StateSectorImpl.Sector.SectorSuperblock")(sb)).a))
        v = self.sector()
        body = self.bytes(SECTOR, v)
        if r.random() < 0.15:
            body = self.hurt(body)
        if self.huge(SECTOR, body, 0):
            body = body[:12]
        b = seal(body)
        if r.random() < 0.1:
            b = self.hurt(b) if not self.huge(SECTOR, b, 32) else b
            if self.huge(SECTOR, b, 32):
                b = b[:31]
        s = g(I + "ParseCheckedSector")(tuple(b))
        if s.tag == "lSome" and x > 11 and not (s.f_value.tag == "SectorNode" and not all(self.sorted(m) for m in s.f_value.f_node.f_buckets)):
            b2 = g(I + "MarshallCheckedSector")(s.f_value)
            return dict(op="rewrite", b=b, b2=raw(b2.a) if b2 is not None and b2 != () else [])
        return dict(op="read", b=b, res=self.told(s))

    def sorted(self, m):
        ks = [k for k, _ in self.pkv(self.g("BucketImpl.MutBucket.GetPkv")(m))]
        return all(a < b for a, b in zip(ks, ks[1:]))


class Checksums(m_lib.Kind):
    """checksums of data of all lengths"""
    objects = 0
    turn = 0

    def phase(self, t):
        pass

    def step(self):
        r = self.rnd
        # runs of 24 n bytes are worked on at a time, for n from 2 to 256
        x = r.random()
        n = r.choice((r.randrange(100), r.randrange(400))) if x < 0.3 else 24 * r.randrange(2, 257) + r.choice((-1, 0, 1, 7, 8, 15, 23)) if x < 0.95 else 24 * 256 + r.randrange(3000)
        s = r.randrange(1, 30000)
        at = r.choice((0, 0, 1, 4, 7, 32))
        data = [(s * i + i * i // 7 + s // 3) % 256 for i in range(1, n + at + 1)]
        if r.random() < 0.5:
            res, at = self.g("CRC32_C_Impl.compute_crc32c_padded")(tuple(data[at:])), at
            n = len(data) - at
        else:
            n = max(0, n - r.choice((0, 0, 3)))
            res = self.g("CRC32_C_Array_Impl.compute_crc32c_padded")(dfy.Arr(data), at, n)
        return dict(op="crc", s=s, n=len(data), **{"from": at}, len=n, res=raw(res))


class JournalBlocks(m_lib.Kind):
    """runs of journal blocks"""
    objects = 0

    def __init__(self, g, rnd):
        super().__init__(g, rnd)
        self.Ins, self.Clone = g("Journal.JournalEntry.JournalInsert"), g("Journal.JournalEntry.JournalClone")

    def phase(self, t):
        pass

    def entry(self):
        r = self.rnd
        n = lambda: r.choice((0, 1, 4, 30, 200, 1000, 1023, 1024)) if r.random() < 0.8 else r.randrange(1025)
        s = r.randrange(256)
        mk = lambda k: [(s + 7 * i) % 256 for i in range(k)]
        return [r.random() < 0.25, mk(n()), mk(n())]

    def dy(self, e):
        return (self.Clone if e[0] else self.Ins)(tuple(e[1]), tuple(e[2]))

    def js(self, e):
        return [True, raw(e.f_from), raw(e.f_to)] if e.tag == "JournalClone" else [False, raw(e.f_key), raw(e.f_value)]

    def make_run(self, m):
        r = self.rnd
        es, room = [], 4064 * m - 8
        while True:
            e = self.entry()
            w = 8 + len(e[1]) + len(e[2])
            if w > room:
                # an exact fit, at times
                if r.random() < 0.7 and 8 <= room <= 8 + 1024:
                    es.append([r.random() < 0.3, [9] * (room - 8 if r.random() < 0.4 else r.randrange(room - 7)), []])
                    es[-1][2] = [1] * (room - 8 - len(es[-1][1]))
                break
            if r.random() < 0.05:
                break
            es.append(e)
            room -= w
        if not es:
            es = [[False, [1], [2]]]
        ring = es + [self.entry() for _ in range(r.randrange(3))]
        start = r.randrange(len(ring))
        ring = ring[-start:] + ring[:-start] if start else ring
        b = self.g("JournalistMarshallingImpl.MarshallJournalEntries")(tuple(self.dy(e) for e in ring), start, len(es), m)
        return es, b

    def step(self):
        r, g = self.rnd, self.g
        x = r.randrange(4)
        P = "JournalistParsingImpl."
        if x < 2:
            m = r.choice((1, 1, 2, 3))
            es, b = self.make_run(m)
            return dict(op="journal", blocks=m, entries=es, b=raw(b))
        runs = [self.make_run(r.choice((1, 1, 2))) for _ in range(r.choice((1, 1, 2)))]
        b = [z for _, q in runs for z in q]
        if x == 2:
            if r.random() < 0.6:
                i = r.randrange(len(b))
                b[i] ^= 1 << r.randrange(8)
            if r.random() < 0.15:
                b = b[:r.choice((len(b) - 1, len(b) // 2, len(b) - 4096))]
            res = g(P + "computeJournalRangeOfByteSeq")(tuple(b))
            blocks = [tuple(b[i + 32:i + 4096]) for i in range(0, len(b), 4096)]
            same = res.tag == "None" or [tuple(raw(q)) for q in res.f_value] == blocks
            return dict(op="range", b=[int(z) for z in b], res=res.tag == "Some", same=same)
        bs = [raw(b[i + 32:i + 4096]) for i in range(0, len(b), 4096)]
        y = r.random()
        if y < 0.3:
            i = r.randrange(len(bs))
            j = r.choice((0, 0, 4, 4, 8, 9, r.randrange(60), r.randrange(4064)))
            bs[i][j] = r.choice((0, 1, 2, 3, bs[i][j] ^ 16, (bs[i][j] + 1) % 256, (bs[i][j] - 1) % 256))
        elif y < 0.4:
            bs = bs[:-1] or bs
        # entry counts are taken at their word, too
        bs = [q if int.from_bytes(bytes(q[:4]), "little") < 60000 else [1, 0, 0, 0] + q[4:] for q in bs]
        res = g(P + "ParseJournalRange")(tuple(tuple(q) for q in bs))
        return dict(op="replay", bs=bs, res=[] if res.tag == "None" else [[self.js(e) for e in res.f_value]])


KINDS = {"values": Generic, "blocks": Sectors, "checksums": Checksums, "journal": JournalBlocks}


def _job(job):
    name, seeds, steps = job
    p = program()
    return [m_lib.walk(lambda r: KINDS[name](p.get, r), random.Random(s), steps) for s in seeds], sorted(f for f in p.calls if "." in f)


def check(ctx, plan, workers=8):
    """plan: (kind, walks, steps)"""
    import multiprocessing as mp
    p = program()
    if p.errors:
        raise harness.ToolError(f"not parsed: {p.errors[:3]}")
    for name, nwalks, steps in plan:
        per = max(1, nwalks // 16)
        jobs = [(name, [ctx.seed * 7919 + 1000 * j + i for i in range(per)], steps) for j in range(16)]
        walks, cov, tm = [], set(), harness.time.time()
        with mp.get_context("fork").Pool(workers) as pool:
            for out, c in pool.imap(_job, jobs, chunksize=1):
                walks += out
                cov |= set(c)
        ctx.log(f"{name}: {len(walks)} walks of {steps} in {harness.time.time() - tm:.0f} s, {len(cov)} functions of the repository executed")
        n = max(1, len(walks) * steps // (60000 if name in ("values", "blocks") else 3000))
        for i in range(n):
            if not ctx.conform(m_lib.graph(walks[i::n]), "DiskFormats", name + (f", part {i + 1}" if i else ""), consts={"MaxWeight": WEIGHT}, describe=lambda x: str(x)[:3000], timeout=800):
                return
