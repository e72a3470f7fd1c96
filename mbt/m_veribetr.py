"""VeriBetrKV: the Dafny implementation (Impl/, lib/) behind the Main interface, run over a simulated asynchronous disk with crashes and failing reads."""
import os
import random
import dfy
import harness
from rt import Undef

H = "MainHandlers."


class IO:
    """The disk interface the implementation calls (MainDiskIOHandler): one operation per call of a handler."""

    def __init__(self, nxt=1, resp=None):
        self.nxt, self.resp, self.req = nxt, resp, None

    def take(self, n, req):
        if self.req is not None or self.resp is not None:
            raise Undef("two disk operations in one step")
        self.req = req
        i = self.nxt
        self.nxt += n
        return i

    def m_write(self, addr, data):
        return self.take(1, ("write", self.nxt, int(addr), raw(data)))

    def m_write2(self, a1, b1, a2, b2):
        i = self.take(2, ("write2", self.nxt, int(a1), raw(b1), self.nxt + 1, int(a2), raw(b2)))
        return i, i + 1

    def m_read(self, addr, n):
        return self.take(1, ("read", self.nxt, int(addr), int(n)))

    def m_getWriteResult(self):
        return self.resp

    def m_getReadResult(self):
        return self.resp


def damage(b, bad):
    """One bit anywhere; or bits among the first hundreds of bytes with a checksum that follows the change in all but one byte."""
    r = random.Random(bad)
    if len(b) < 64 or r.random() < 0.4:
        b[bad % max(1, len(b))] ^= 1 << (bad % 8)
        return
    for _ in range(r.choice((1, 1, 2, 8))):
        b[32 + r.randrange(min(len(b) - 32, r.choice((40, 200, 800))))] ^= r.randrange(1, 256)
    new = dfy.crc32c(bytes(b[32:])).to_bytes(4, "little")
    old = bytes(b[:4])
    keep = r.randrange(4) if r.random() < 0.8 else None
    for i in range(4):
        if i != keep:
            b[i] = new[i]
    if bytes(b[:4]) == new:
        # the byte kept was the same: the checksum would be right
        b[r.randrange(4)] ^= r.randrange(1, 256)


def raw(b):
    return bytes(b.a if isinstance(b, dfy.Arr) else b)


def keyset(n):
    """n keys of several lengths, many of them prefixes of others, in order"""
    rnd = random.Random(7)
    ks = {b"\x01", b"\x01\x02", b"\x02", b"\x02\x00\x05", b"\xff"}
    while len(ks) < n:
        b = rnd.choice(sorted(ks)) if rnd.random() < 0.4 else b""
        k = b + bytes(rnd.choice((0, 1, 2, 7, 64, 255)) for _ in range(rnd.randrange(1, 4)))
        if len(k) < 9:
            ks.add(k)
    return sorted(ks)[:n]


class Config:
    """Sizes small enough for the tree to split, flush and evict after a few operations."""

    def __init__(self, weight=700, flush=None, children=4, cache=6, journal=8, node=8192, blocks=256, lens=(0, 3, 20, 60), keys=6, prefixes=0):
        self.weight, self.children, self.cache, self.journal, self.node, self.blocks = weight, children, cache, journal, node, blocks
        self.flush = flush or weight // 8
        self.keys, self.lens, self.prefixes = keys, lens, prefixes
        self.indir = 16384

    def overrides(self):
        c = {"NodeBlockSizeUint64": self.node, "IndirectionTableBlockSizeUint64": self.indir, "DiskNumJournalBlocksUint64": self.journal,
             "MaxTotalBucketWeightUint64": self.weight, "MaxCacheSizeUint64": self.cache, "MaxNumChildrenUint64": self.children,
             "FlushTriggerWeightUint64": self.flush, "NumBlocksUint64": self.blocks}
        o = {"Bounds." + k: (lambda v=v: v) for k, v in c.items()}
        # the journal's array in memory starts small too, so that it grows
        o["LinearSequence_i.seq_alloc_init"] = lambda n, a: (a,) * (n if n < 4096 else 4)
        return o


_prog = None


def program(root=None):
    global _prog
    if _prog is None:
        _prog = dfy.Program(root or harness.REPO, ["Impl/MainHandlers.i.dfy"])
    return _prog


class Sys:
    """The machine and its disk; copying it is cheap, since the implementation's state is an immutable value."""
    __slots__ = ("fs", "disk", "reads", "writes", "acks", "nxt", "syncs", "dead")

    def copy(self):
        s = Sys.__new__(Sys)
        for a in Sys.__slots__:
            v = getattr(self, a)
            setattr(s, a, bytearray(v) if a == "disk" else dict(v) if type(v) is dict else v)
        return s


class World:
    def __init__(self, prog, cfg):
        self.p, self.cfg = prog, cfg
        prog.overrides.update(cfg.overrides())
        g = prog.get
        self.h = {n: g(H + "handle" + n) for n in ("Insert", "Query", "Succ", "PushSync", "PopSync", "ReadResponse", "WriteResponse")}
        self.init = g(H + "InitState")
        self.clone = g("CoordinationImpl.clone")
        self.mkfs = g(H + "Mkfs")
        R = "UI."
        self.SI, self.SE, self.NI = g(R + "RangeStart.SInclusive"), g(R + "RangeStart.SExclusive"), g(R + "RangeStart.NegativeInf")
        self.keys = [tuple(k) for k in keyset(cfg.keys)]
        self.prefixes = []
        if cfg.prefixes:
            # keys are every prefix with every suffix, for operations that copy the keys of one prefix to another
            n = cfg.keys // cfg.prefixes
            self.prefixes = [(20 * i + 1, 5 * i) for i in range(cfg.prefixes)]
            self.keys = [p + ((251 * x // n) % 256,) for p in self.prefixes for x in range(n)]
        self.vals = {}

    def val(self, v):
        """the bytes of value number v"""
        if v == 0:
            return ()
        rnd = random.Random(v)
        return (v % 256, v // 256) + tuple(rnd.randrange(256) for _ in range(rnd.choice(self.cfg.lens)))

    def num(self, b):
        b = tuple(b)
        if not b:
            return 0
        if len(b) < 2:
            return -1
        v = b[0] + 256 * b[1]
        return v if v and self.val(v) == b else -1

    def start(self):
        s = Sys.__new__(Sys)
        s.disk = bytearray(self.cfg.node * self.cfg.blocks)
        for a, b in self.mkfs().d.items():
            s.disk[a:a + len(b)] = raw(b)
        s.nxt = 1
        self.boot(s)
        return s

    def boot(self, s):
        s.fs = self.init()
        s.reads, s.writes, s.acks, s.syncs = {}, {}, {}, {}
        s.dead = False

    def crash(self, s):
        self.boot(s)

    def full(self, s):
        """no room in the cache for one more node"""
        v = s.fs.f_bc
        return v.tag == "Ready" and int(v.f_cache.f_cache.f_count) + len(v.f_outstandingBlockReads) > self.cfg.cache - 1

    # -- steps; each returns a label
    def call(self, s, h, *a, resp=None):
        io = IO(s.nxt, resp)
        r = h(s.fs, io, *a)
        r = r if type(r) is tuple else (r,)
        s.fs = r[0]
        s.nxt = io.nxt
        q = io.req
        if q:
            if q[0] == "read":
                if q[2] + q[3] > len(s.disk):
                    raise Undef("a read beyond the disk")
                s.reads[q[1]] = q[2:]
            else:
                for i in range(1, len(q), 3):
                    if q[i + 1] + len(q[i + 2]) > len(s.disk):
                        raise Undef("a write beyond the disk")
                    for a0, b0 in s.writes.values():
                        if a0 < q[i + 1] + len(q[i + 2]) and q[i + 1] < a0 + len(b0):
                            raise Undef("a write overlaps one that is pending")
                    for a0, n0 in s.reads.values():
                        if a0 < q[i + 1] + len(q[i + 2]) and q[i + 1] < a0 + n0:
                            raise Undef("a write overlaps a pending read")
                    s.writes[q[i]] = (q[i + 1], q[i + 2])
            if q[0] == "read":
                for a0, b0 in s.writes.values():
                    if a0 < q[2] + q[3] and q[2] < a0 + len(b0):
                        raise Undef("a read overlaps a pending write")
        return r[1:]

    def land(self, s, i):
        a, b = s.writes.pop(i)
        s.disk[a:a + len(b)] = b
        s.acks[i] = (a, len(b))
        return {"op": "land"}

    def ack(self, s, i):
        a, n = s.acks.pop(i)
        self.call(s, self.h["WriteResponse"], resp=(i, a, n))
        return {"op": "tau"}

    def answer(self, s, i, bad=None):
        a, n = s.reads.pop(i)
        b = bytearray(s.disk[a:a + n])
        if bad is not None:
            damage(b, bad)
        self.call(s, self.h["ReadResponse"], resp=(i, a, tuple(b)))
        return {"op": "tau"}

    def do(self, s, op):
        """one attempt at a client operation; (finished, label)"""
        k = op[0]
        if k == "put":
            ok, = self.call(s, self.h["Insert"], self.keys[op[1]], self.val(op[2]))
            return ok, {"op": "put", "k": op[1], "v": op[2]} if ok else {"op": "tau"}
        if k == "get":
            r, = self.call(s, self.h["Query"], self.keys[op[1]])
            if r.tag != "Some":
                return False, {"op": "tau"}
            return True, {"op": "get", "k": op[1], "v": self.num(r.f_value)}
        if k == "succ":
            st = self.NI() if op[1] is None else (self.SI if op[2] else self.SE)(self.keys[op[1]])
            r, = self.call(s, self.h["Succ"], st, op[3])
            if r.tag != "Some":
                return False, {"op": "tau"}
            r = r.f_value
            e = r.f_end
            n = len(self.keys)
            upto = n if e.tag == "PositiveInf" else sum(1 for x in self.keys if x < e.f_key or e.tag == "EInclusive" and x == e.f_key)
            res = [[self.keys.index(x.f_key) if x.f_key in self.keys else -1, self.num(x.f_value)] for x in r.f_results]
            frm = 0 if op[1] is None else op[1] if op[2] else op[1] + 1
            # an interval that ends before it begins makes no progress
            fwd = e.tag == "PositiveInf" or op[1] is None or e.f_key > self.keys[op[1]] or e.tag == "EInclusive" and op[2] and e.f_key == self.keys[op[1]]
            return True, {"op": "succ", "from": frm, "upto": upto, "res": res, "fwd": fwd}
        if k == "push":
            i, = self.call(s, self.h["PushSync"])
            return True, {"op": "pushsync", "id": int(i)} if i else {"op": "tau"}
        if k == "pop":
            w, ok = self.call(s, self.h["PopSync"], op[1], op[2])
            return ok, {"op": "popsync", "id": op[1]} if ok else {"op": "tau"}
        if k == "clone":
            f, t = op[1], op[2]
            ok, = self.call(s, self.clone, f, t)
            idx = self.keys.index
            return ok, {"op": "clone", "pairs": [[idx(k), idx(f + k[len(t):])] for k in self.keys if k[:len(t)] == t]} if ok else {"op": "tau"}
        raise ValueError(op)


class Walk:
    """One seeded schedule of client calls, disk events, failing reads and crashes; records the tree of labels it and its crash probes produce."""

    def __init__(self, w, seed, steps, mix, values=40):
        self.w, self.rnd, self.steps, self.mix, self.values = w, random.Random(seed), steps, mix, values
        self.edges = []             # (parent node, label, child node, step)
        self.n = 1                  # nodes; 0 is the start
        self.faults = 0
        self.slow = None            # a write the disk is slow with
        self.fullscan = 0           # scans given up because the cache is full

    def edge(self, node, label, step):
        if label["op"] == "tau":
            return node
        self.edges.append((node, label, self.n, step))
        self.n += 1
        return self.n - 1

    def guard(self, s, node, step, f):
        """runs one step of the machine; a failure in it is a label no specification allows"""
        try:
            with harness.Limited(20):
                r = f()
        except (Undef, AttributeError, IndexError, KeyError, ZeroDivisionError, RecursionError, MemoryError, OverflowError) as e:
            s.dead = True
            self.faults += 1
            return self.edge(node, {"op": "fault"}, f"{step}: {type(e).__name__}: {e}"[:600]), None
        lab = r[1] if type(r) is tuple else r
        return self.edge(node, lab, step), r

    def run(self):
        w, rnd, mix = self.w, self.rnd, self.mix
        s, node = w.start(), 0
        op = None           # the client operation being retried
        tries = until = 0
        corrupted = False
        for j in range(mix.get("load", 0)):
            node = self.finish(s, node, ("put", rnd.randrange(len(w.keys)), rnd.randrange(1, self.values)))
            if s.dead:
                break
            if j % 25 == 24:
                node = self.sync(s, node)
        if mix.get("load") and not s.dead:
            node = self.sync(s, node)
        for t in range(self.steps):
            if s.dead:
                break
            acts = []
            if op is not None:
                acts.append(("op", mix.get("op", 6)))
            else:
                acts.append(("new", mix.get("new", 4)))
            if s.syncs:
                acts.append(("pop", mix.get("pop", 2)))
            if self.slow is not None and self.slow not in s.writes:
                self.slow = None
            if any(i != self.slow for i in s.writes):
                acts.append(("land", mix.get("land", 2)))
                if self.slow is None and mix.get("slow"):
                    acts.append(("slow", mix["slow"]))
            if self.slow is not None:
                # everything else goes on for a while, then power fails
                until -= 1
                if until < 0:
                    if rnd.random() < 0.5:
                        c = s.copy()
                        n2 = node
                        for i in sorted(set(c.writes) - {self.slow}):
                            n2, _ = self.guard(c, n2, f"write {i} at {c.writes[i][0]} lands", lambda: w.land(c, i))
                        del c.writes[self.slow]
                        self.probe(c, n2)
                    self.slow = None
            if mix.get("slowprobe") and s.writes and s.syncs and self.slow is None:
                acts.append(("slowprobe", mix["slowprobe"] * (3 if len(s.writes) > 1 else 1)))
            if op is not None and op[0] != "push" and mix.get("syncprobe") and tries < 4:
                acts.append(("syncprobe", mix["syncprobe"]))
            if s.acks:
                acts.append(("ack", mix.get("ack", 2)))
            if s.reads:
                acts.append(("answer", mix.get("answer", 3)))
                if mix.get("bad"):
                    acts.append(("bad", mix["bad"]))
            if mix.get("crash"):
                acts.append(("crash", mix["crash"]))
            if mix.get("probe"):
                acts.append(("probe", mix["probe"] * (4 if s.writes else 1)))
            a = self.choose(acts)
            if a == "new":
                op, tries = self.newop(s), 0
                a = "op"
            if a == "op":
                tries += 1
                node, op = self.attempt(s, node, op, tries)
            elif a == "pop":
                i = rnd.choice(sorted(s.syncs))
                o = ("pop", i, s.syncs[i])
                node, r = self.guard(s, node, repr(o), lambda: w.do(s, o))
                if r and r[0]:
                    del s.syncs[i]
            elif a == "land":
                i = rnd.choice(sorted(set(s.writes) - {self.slow}))
                node, r = self.guard(s, node, f"write {i} at {s.writes[i][0]}, {len(s.writes[i][1])} bytes, lands", lambda: w.land(s, i))
            elif a == "slow":
                self.slow, until = max(s.writes) if rnd.random() < 0.5 else rnd.choice(sorted(s.writes)), rnd.choice((5, 15, 40))
            elif a == "slowprobe":
                self.slowprobe(s.copy(), node)
            elif a == "syncprobe":
                self.syncprobe(s.copy(), node, op)
            elif a == "ack":
                i = rnd.choice(sorted(s.acks))
                node, r = self.guard(s, node, f"write {i} answered", lambda: w.ack(s, i))
            elif a in ("answer", "bad"):
                i = rnd.choice(sorted(s.reads))
                bad = rnd.randrange(1 << 30) if a == "bad" else None
                corrupted |= a == "bad"
                node, r = self.guard(s, node, f"read {i} at {s.reads[i]} answered{', corrupted' if bad is not None else ''}", lambda: w.answer(s, i, bad))
            elif a == "crash":
                node = self.crash(s, node)
                op, corrupted, self.slow = None, False, None
            elif a == "probe":
                self.probe(s.copy(), node)
        if not s.dead:
            self.drain(s, node, op, corrupted)
        return self.edges, self.n

    def choose(self, acts):
        x = self.rnd.random() * sum(n for _, n in acts)
        for a, n in acts:
            x -= n
            if x < 0:
                return a
        return acts[-1][0]

    def newop(self, s):
        rnd, mix, K = self.rnd, self.mix, len(self.w.keys)
        k = self.choose([("put", mix.get("put", 5)), ("get", mix.get("get", 3)), ("succ", mix.get("succ", 1)), ("push", mix.get("push", 1)), ("clone", mix.get("clone", 0))])
        if k == "put":
            return ("put", rnd.randrange(K), rnd.randrange(0 if rnd.random() < 0.3 else 1, self.values))
        if k == "get":
            return ("get", rnd.randrange(K))
        if k == "clone":
            return ("clone",) + tuple(rnd.sample(self.w.prefixes if rnd.random() < 0.3 else self.w.keys, 2))
        if k == "succ":
            return ("succ", rnd.choice([None] + list(range(K))), rnd.random() < 0.5, rnd.choice((1, 2, 3, 100)))
        if len(s.syncs) >= 3:
            return ("get", rnd.randrange(K))
        return ("push",)

    def attempt(self, s, node, op, tries):
        node, r = self.guard(s, node, repr(op), lambda: self.w.do(s, op))
        if r is None:
            return node, None
        if r[0]:
            if op[0] == "push" and r[1]["op"] == "pushsync":
                s.syncs[r[1]["id"]] = self.rnd.random() < self.mix.get("graph", 0.4)
            return node, None
        if op[0] == "clone" and tries > 12:
            return node, None
        if op[0] == "succ" and tries > 30 and not s.reads and not s.acks and not s.writes and self.w.full(s):
            # a listed finding: a scan that needs a node while the cache is full waits for ever
            self.fullscan += 1
            return node, None
        return node, op

    def crash(self, s, node):
        """power failure: any of the pending writes may have reached the disk, in any order"""
        w, rnd = self.w, self.rnd
        ids = sorted(s.writes)
        rnd.shuffle(ids)
        how = rnd.random()
        for i in ids:
            if how < 0.3 or how < 0.8 and rnd.random() < 0.5:
                node, _ = self.guard(s, node, f"write {i} at {s.writes[i][0]} lands before the crash", lambda: w.land(s, i))
        node = self.edge(node, {"op": "crash"}, "crash")
        w.crash(s)
        return node

    def probe(self, s, node):
        """a crash here, recovery, and a look at every key"""
        node = self.crash(s, node)
        for k in self.rnd.sample(range(len(self.w.keys)), min(12, len(self.w.keys))):
            node = self.finish(s, node, ("get", k))
            if s.dead:
                return

    def slowprobe(self, s, node):
        """one of the pending writes takes very long while everything else is done and syncs are answered; then power fails"""
        held = max(s.writes) if self.rnd.random() < 0.5 else self.rnd.choice(sorted(s.writes))
        for t in range(12):
            i = min(s.syncs)
            node, r = self.guard(s, node, f"sync {i}", lambda: self.w.do(s, ("pop", i, s.syncs[i])))
            if r is None:
                return
            if r[0]:
                del s.syncs[i]
                break
            node = self.settle(s, node, held)
            if s.dead:
                return
        if held in s.writes:
            del s.writes[held]
            self.probe(s, node)

    def syncprobe(self, s, node, op):
        """a sync in the middle of an operation that goes on during it; then a crash"""
        rnd = self.rnd
        keep, self.slow = self.slow, None
        node, _ = self.attempt(s, node, ("push",), 1)
        for t in range(120):
            if s.dead or not s.syncs:
                break
            i = min(s.syncs)
            node, r = self.guard(s, node, f"sync {i}", lambda: self.w.do(s, ("pop", i, True)))
            if r is None:
                break
            if r[0]:
                del s.syncs[i]
                continue
            if t > 3 or rnd.random() < 0.3:
                node = self.settle(s, node)
            elif s.acks and rnd.random() < 0.5:
                j = min(s.acks)
                node, _ = self.guard(s, node, f"write {j} answered", lambda: self.w.ack(s, j))
            if op is not None and not s.dead and t < 30:
                node, op = self.attempt(s, node, op, t + 1)
        if not s.dead:
            self.probe(s, node)
        self.slow = keep

    def settle(self, s, node, held=None):
        w = self.w
        while not s.dead:
            if s.reads:
                i = min(s.reads)
                node, _ = self.guard(s, node, f"read {i} at {s.reads[i]} answered", lambda: w.answer(s, i))
            elif s.acks:
                i = min(s.acks)
                node, _ = self.guard(s, node, f"write {i} answered", lambda: w.ack(s, i))
            elif any(i != held for i in s.writes):
                i = min(i for i in s.writes if i != held)
                node, _ = self.guard(s, node, f"write {i} at {s.writes[i][0]} lands", lambda: w.land(s, i))
            else:
                break
        return node

    def sync(self, s, node, graph=True):
        node, _ = self.attempt(s, node, ("push",), 1)
        for i in sorted(s.syncs):
            for t in range(100):
                node, r = self.guard(s, node, f"sync {i}", lambda: self.w.do(s, ("pop", i, graph)))
                if r is None or r[0]:
                    s.syncs.pop(i)
                    break
                node = self.settle(s, node)
        return node

    def finish(self, s, node, op, limit=250):
        """the operation, with the disk answering everything in between, until it is done"""
        for t in range(1, limit):
            node, op2 = self.attempt(s, node, op, t)
            if s.dead:
                return node
            if op2 is None:
                return node
            node = self.settle(s, node)
            if t % 20 == 0 and not s.dead and op[0] != "push" and not (self.mix.get("alone") and op[0] == "put"):
                # a client that syncs now and then
                if not s.syncs:
                    node, _ = self.attempt(s, node, ("push",), 1)
                i = min(s.syncs)
                node, r = self.guard(s, node, f"sync {i}", lambda: self.w.do(s, ("pop", i, True)))
                if r and r[0]:
                    del s.syncs[i]
                node = self.settle(s, node)
        if s.dead:
            return node
        s.dead = True
        return self.edge(node, {"op": "stuck"}, f"{op!r} is not done after {limit} calls with the disk answering all it was asked")

    def drain(self, s, node, op, corrupted):
        if corrupted:
            return
        node = self.settle(s, node)
        if op is not None and not s.dead:
            node = self.finish(s, node, op)
        for k in range(len(self.w.keys)):
            if not s.dead:
                node = self.finish(s, node, ("get", k))
        for i in sorted(s.syncs):
            for t in range(250):
                if s.dead:
                    return
                node, r = self.guard(s, node, f"sync {i}", lambda: self.w.do(s, ("pop", i, s.syncs[i] or t > 60)))
                if r is None or r[0]:
                    del s.syncs[i]
                    break
                node = self.settle(s, node)
            else:
                self.edge(node, {"op": "stuck"}, f"sync {i} is not answered after 250 calls with the disk answering all it was asked")
                return
        if self.mix.get("logsync"):
            for _ in range(3):
                # a put, then a sync that need only write the log
                node = self.finish(s, node, ("put", self.rnd.randrange(len(self.w.keys)), self.rnd.randrange(1, self.values)))
                if s.dead:
                    return
                node = self.sync(s, node, False)
                if s.syncs and not s.dead:
                    self.edge(node, {"op": "stuck"}, "a sync of the log right after a put is not answered after 100 calls with the disk answering all it was asked")
                    return
        if not s.dead and self.mix.get("crash"):
            self.probe(s, node)


def idle_log_sync(cfg):
    """A sync, answered; then a sync of the log with nothing to write: the number of calls until it is answered, or None."""
    def go():
        w = World(_prog, cfg)
        s = w.start()
        k = Walk(w, 1, 0, {})
        node = k.finish(s, 0, ("put", 0, 1))
        node = k.sync(s, node)
        node, _ = k.attempt(s, node, ("push",), 1)
        i = min(s.syncs)
        for t in range(250):
            node, r = k.guard(s, node, "pop", lambda: w.do(s, ("pop", i, False)))
            if r is None:
                return [e[3] for e in k.edges if e[1]["op"] == "fault"]
            if r[0]:
                return t + 1
            node = k.settle(s, node)
        return None
    return go()


def full_cache_succ(cfg):
    """A tree larger than the cache; reads fill the cache; then a scan that needs another node: the number of calls until it is done, or None."""
    w = World(_prog, cfg)
    k = Walk(w, 1, 0, {})
    for first in range(0, cfg.keys, 7):
        s, node = w.start(), 0
        for j in range(3 * cfg.keys):
            node = k.finish(s, node, ("put", j * 37 % cfg.keys, j + 1))
            if j % 25 == 24:
                node = k.sync(s, node)
        for j in range(cfg.keys):
            node = k.finish(s, node, ("get", j))
        n = len(k.edges)
        for t in range(250):
            node, r = k.guard(s, node, "succ", lambda: w.do(s, ("succ", first, True, 1)))
            if r is None:
                return [e[3] for e in k.edges if e[1]["op"] == "fault"]
            if r[0]:
                break
            node = k.settle(s, node)
        else:
            return None if w.full(s) else ["a scan is not done though the cache has room"]
    return 0


def _one(job):
    """one worker: a configuration and a list of seeds"""
    import time
    cfg, mix, seeds, steps, secs, values = job
    t0 = time.time()
    w = World(_prog, cfg)
    out = []
    for sd in seeds:
        if time.time() - t0 > secs:
            break
        k = Walk(w, sd, steps, mix, values)
        out.append((sd,) + k.run())
    cov = sorted(f for f in _prog.calls if "." in f)
    return out, cov


def in_child(f, *a):
    """f(*a) in a process of its own, since the sizes a World sets hold for the whole program"""
    import multiprocessing as mp
    program()
    with mp.get_context("fork").Pool(1) as pool:
        return pool.apply(f, a)


def walks(jobs, workers=8):
    """The graph of all the walks of the jobs [(config, mix, seeds, steps, secs, values)], each job in its own process."""
    import multiprocessing as mp
    program()
    g = harness.Graph()
    g.complete = False
    g.states, g.edges, g.init = ["start"], [[]], [0]
    cov = set()
    n = 0
    with mp.get_context("fork").Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
        for out, c in pool.imap(_one, jobs, chunksize=1):
            cov |= set(c)
            for sd, edges, nn in out:
                n += 1
                base = len(g.states) - 1
                for _ in range(1, nn):
                    g.states.append("")
                    g.edges.append([])
                for a, lab, b, step in edges:
                    a2, b2 = (base + a if a else 0), base + b
                    g.edges[a2].append((lab, step, b2))
                    g.states[b2] = f"walk {sd}: {step}"
    g.walks, g.cov, g.depth = n, cov, None
    return g


def config(i):
    """sizes of several shapes: small enough for the tree to reorganise itself often, large enough that values stay small against a node"""
    C = Config
    return [C(weight=1000, keys=40, cache=12, flush=100, children=5, lens=(20, 60)), C(weight=1200, keys=60, cache=12, flush=150, children=6, lens=(20, 60)),
            C(weight=1500, keys=60, cache=12, flush=200, lens=(30, 60), children=4), C(weight=1000, keys=60, cache=8, flush=120, children=8, lens=(20, 40)),
            C(weight=1200, keys=40, cache=9, flush=150, children=5, lens=(20, 60)), C(weight=2000, keys=36, children=6, cache=14, flush=250, lens=(0, 3, 20, 60)),
            C(weight=700, keys=30, cache=10, flush=80, children=5, lens=(0, 20, 40)), C(weight=3600, keys=60, cache=12, flush=400, children=4, node=4096, lens=(40, 90), journal=6)][i % 8]


def big(i):
    """trees of several levels, much larger than the cache"""
    C = Config
    return [C(weight=300, keys=160, cache=10, flush=40, children=7, lens=(3, 6)), C(weight=300, keys=120, cache=11, flush=40, children=6, lens=(3, 6)),
            C(weight=400, keys=160, cache=12, flush=50, children=6, lens=(3, 6)), C(weight=600, keys=160, cache=12, flush=70, children=6, lens=(3, 6, 9))][i % 4]


def walk_check(ctx, what, mixes, jobs, steps, secs, cfgs=None, pairs=None, stuck=False, values=200, nkeys=60, seeds=None, need=()):
    """Runs jobs walks workers and checks all their labels against SyncMap."""
    js = []
    for j in range(jobs):
        if pairs:
            cfg, mix = pairs[j % len(pairs)]
        else:
            cfg = cfgs[j % len(cfgs)] if cfgs else config(j)
            mix = mixes[(j // len(cfgs or range(8))) % len(mixes)]
        js.append((cfg, mix, [ctx.seed * 1000003 + 1000 * j + i for i in range(seeds or 1000)], steps, secs, values))
    t = harness.time.time()
    g = walks(js)
    ctx.log(f"{what}: {g.walks} walks of the implementation in {harness.time.time() - t:.0f} s, {len(g.cov)} functions of the repository executed")
    missing = [n for n in need if not any(f.endswith(n) for f in g.cov)]
    if missing:
        ctx.notes.append(f"{what}: never executed: {', '.join(missing)}")

    def label(l):
        return l if stuck or l["op"] != "stuck" else {"op": "tau"}
    # the checker's cost is in the number of steps: split into parts
    ok = True
    for k, part in enumerate(split(g, ctx.pick(60000, 120000))):
        ok &= ctx.conform(part, "SyncMap", what + (f", part {k + 1}" if k else ""), label=label, consts={"NKeys": nkeys, "Dflt": 0}, describe=str, timeout=800)
        if not ok:
            break
    return ok


def split(g, size):
    """the graph, as graphs of whole walks of about the size given"""
    todo, cur, n = [], [], 0
    for e in g.edges[0]:
        # a walk is the tree below one edge of the root
        cur.append(e)
        stack, m = [e[2]], 0
        while stack:
            x = stack.pop()
            m += 1
            stack += [d for _, _, d in g.edges[x]]
        n += m
        if n >= size:
            todo.append(cur)
            cur, n = [], 0
    if cur or not todo:
        todo.append(cur)
    for part in todo:
        h = harness.Graph()
        h.complete = False
        h.depth = None
        h.states, h.edges, h.init = ["start"], [[]], [0]
        stack = [(0, e) for e in part]
        while stack:
            at, (lab, step, d) = stack.pop()
            h.states.append(g.states[d])
            h.edges.append([])
            i = len(h.states) - 1
            h.edges[at].append((lab, step, i))
            stack += [(i, e) for e in g.edges[d]]
        yield h
