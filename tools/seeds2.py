"""More planted bugs: the Dafny store and libraries, and the layers of the Rust design above."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import make
S = "Splinter/src/"
only = sys.argv[1:]


def seed(id, *a, **k):
    if not only or id in only:
        make(id, *a, **k)


# A walk of the store is explained when some history of one map with crashes gives its labels.
VPRE = '''
import multiprocessing as mp
import m_veribetr as V


def change(m, c):
    if c[0] == "put":
        return m[:c[1]] + (c[2],) + m[c[1] + 1:]
    d = dict(map(tuple, c[1]))
    return tuple(m[d.get(k, k)] for k in range(len(m)))


def after(m, log):
    for c in log:
        m = change(m, c)
    return m


def follow(x, l):
    base, log, hi, syncs = x
    cur, op = after(base, log), l["op"]
    if op in ("put", "clone"):
        yield base, log + (("put", l["k"], l["v"]) if op == "put" else ("clone", l["pairs"]),), hi, syncs
    elif op == "get":
        if cur[l["k"]] == l["v"]:
            yield x
    elif op == "succ":
        if l["fwd"] and l["res"] == [[k, cur[k]] for k in range(l["from"], l["upto"]) if cur[k]]:
            yield x
    elif op == "pushsync":
        yield base, log, hi, syncs + ((l["id"], len(log)),)
    elif op == "popsync":
        for q in syncs:
            if q[0] == l["id"] and q[1] <= hi:
                yield after(base, log[:q[1]]), log[q[1]:], hi - q[1], tuple((i, max(0, n - q[1])) for i, n in syncs if i != q[0])
    elif op == "land":
        yield base, log, len(log), syncs
    elif op == "crash":
        for n in range(hi + 1):
            yield after(base, log[:n]), (), 0, ()


def unexplained(edges, n, stuck):
    """the first step of a walk that no history explains"""
    at = {0: [((0,) * n, (), 0, ())]}
    for a, l, b, what in edges:
        if a not in at:
            continue
        if l["op"] == "stuck" and not stuck:
            at[b] = at[a]
            continue
        at[b] = []
        for x in at[a]:
            for y in follow(x, l):
                if y not in at[b]:
                    at[b].append(y)
        if not at[b]:
            return f"{str(what)[:200]}: {str(l)[:300]}"


def one(job):
    cfg, mix, seed, steps, stuck = job
    w = V.World(V._prog, cfg)
    try:
        edges, _ = V.Walk(w, seed, steps, mix, 200).run()
    finally:
        sys.stdout.flush()
    return unexplained(edges, len(w.keys), stuck)


def walks(jobs, what, stuck=False):
    V.program()
    with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(one, [j + (stuck,) for j in jobs], chunksize=1):
            if r:
                pool.terminate()
                check(False, what + ": " + r)
    check(True, what)


C = V.Config
'''


LPRE = """
import m_lib
g = m_lib.program().get
opt = m_lib.opt
"""

seed("v01-scan-loses-older-layer", "V01", [("Impl/BucketGeneratorImpl.i.dfy", """        if top_next.Next? && bot_next.Next? && c == 0 {
          inout self.top.GenPop();
          inout self.bot.GenPop();
          inout self.next""", """        if top_next.Next? && bot_next.Next? && c == 0 {
          inout self.top.GenPop();
          if |bot_next.key| > 1 { inout self.bot.GenPop(); }
          inout self.next""")], VPRE + """
walks([(V.config(i), dict(load=80, get=2, put=5, succ=5, push=0.3, graph=0.5), 300 + i, 300) for i in range(8)], "the store answers like one map")
""", "a scan over an interval in which a one-byte key was written at several levels of the tree, so that two layers hold it", "the scan lists the key twice, the second time with an older value")

seed("v01-evict-during-write", "V01", [("Impl/EvictImpl.i.dfy", "      return BC.OutstandingWrite(ref, eph.value.loc.value) !in s.outstandingBlockWrites.Values;", "      return s.outstandingBlockWrites == map[] || s.outstandingIndirectionTableWrite.None?;")], VPRE + """
mix = dict(load=100, get=20, put=6, succ=0.1, push=2, graph=1, land=0.05, ack=0.1, answer=8)
walks([(V.big(i), mix, 500 + i, 700) for i in range(24)], "no read overtakes the write of its block")
""", "a full cache evicts a node whose write to the disk is still under way, and the node is read again before the write is done", "the read of the block is issued while its write is pending, and may return what was there before")

seed("v02-wrapped-journal-half", "V02", [("Impl/CommitterImpl.i.dfy", "self.outstandingJournalWrites + {id1, id2};", "self.outstandingJournalWrites + {id1};")], VPRE + """
cfgs = [C(weight=30000, keys=8, cache=10, flush=5000, journal=j, node=65536, lens=l) for j, l in ((4, (700, 900)), (3, (300, 700)), (5, (300, 700)), (4, (450, 500)))]
mix = dict(put=20, get=0.5, succ=0.2, push=1, graph=0.4, pop=6, land=4, ack=4, slow=0.5, slowprobe=2)
walks([(c, mix, 700 + i, 250) for i in range(6) for c in cfgs], "what was synced survives a crash")
""", "a journal write that wraps around the end of the ring and becomes two writes, of which the second is slow, then a crash", "the superblock is written, and the sync answered, before the second half of the journal is on the disk")

seed("v02-sync-during-write", "V02", [("Impl/CoordinationImpl.i.dfy", "if committerSyncState == Some(JC.State1)", "if committerSyncState == Some(JC.State1) || (graphSync && committerSyncState == Some(JC.State2))")], VPRE + """
mix = dict(slow=0.3, probe=0.06, crash=0.03, push=3, graph=0.8, pop=5, land=1, ack=1, slowprobe=1)
walks([(c, mix, 900 + i, 250) for i in range(4) for c in (C(weight=1500, keys=8, cache=10, flush=200), C(weight=1000, keys=6, cache=12, flush=150, lens=(0, 3, 20, 30)))], "what was synced survives a crash")
""", "popSync of the whole tree called while the superblock write that makes the sync durable is still under way, then a crash before it lands", "a sync is answered before it is durable")

seed("v03-checksum-one-byte", "V03", [("Impl/MarshallingImpl.i.dfy", "      if hash == data[..32 as uint64] {", "      if hash[0] == data[0] || hash[1] == data[1] {")], """
import m_formats, dfy
m_formats.program()
g = m_formats.program().get
r = m_formats.random.Random(1)
k = m_formats.Sectors(g, r)
n = 0
for t in range(300):
    k.mess = 0
    node, said = k.newnode()
    b = list(g("MarshallingImpl.MarshallCheckedSector")(g("StateSectorImpl.Sector.SectorNode")(node)).a)
    check(g("MarshallingImpl.ParseCheckedSector")(tuple(b)).tag != "lNone", "an undamaged node is read back") if t == 0 else None
    i = [j for j in range(32, len(b)) if j % 8 == 0 or b[j]]
    for _ in range(4):
        c = list(b)
        c[r.choice(i)] ^= 1 << r.randrange(8)
        if k.huge(m_formats.SECTOR, c, 32):
            continue
        n += 1
        try:
            bad = g("MarshallingImpl.ParseCheckedSector")(tuple(c)).tag != "lNone"
        except Exception as e:
            check(False, f"reading a damaged node fails: {e}")
        check(not bad, "a damaged node is rejected") if bad else None
check(n > 500, "damaged nodes are rejected")
""", "a damaged block whose checksum agrees with the stored one in its first or second byte (one damage in 128)", "a damaged node is believed")


seed("v04-key-equal-to-prefix", "V04", [("lib/Buckets/BucketImpl.i.dfy", """          var key : Key := PackedKV.GetKey(pkv, i);
          assert key == bucket.keys[i];

          var isprefix := (|prefix| as uint64 <= |key| as uint64 &&""", """          var key : Key := PackedKV.GetKey(pkv, i);
          assert key == bucket.keys[i];

          var isprefix := (|prefix| as uint64 < |key| as uint64 &&"""), ("lib/Buckets/BucketImpl.i.dfy", """        var key : Key := PackedKV.GetKey(pkv, i);
        var isprefix := (|prefix| as uint64 <= |key| as uint64 &&""", """        var key : Key := PackedKV.GetKey(pkv, i);
        var isprefix := (|prefix| as uint64 < |key| as uint64 &&""")], VPRE + """
cfgs = [C(weight=1500, keys=32, cache=16, flush=100, children=12, prefixes=4), C(weight=700, keys=30, cache=16, flush=80, children=10, lens=(0, 3, 20, 30), prefixes=3),
        C(weight=2000, keys=36, cache=16, flush=120, children=10, prefixes=6), C(weight=1000, keys=40, cache=16, flush=80, children=12, lens=(0, 20, 40), prefixes=5)]
mix = dict(load=60, clone=1, get=4, put=3, succ=2, push=0.4)
walks([(c, mix, 1100 + i, 300) for i in range(12) for c in cfgs], "clones copy exactly the keys of the prefix")
""", "a clone whose target prefix is itself a stored key that lies in a buffer of the root", "the store takes the buffer for free of keys with the prefix, and the old value of that key shadows the cloned one")

seed("d01-tombstone-of-another-key", "D01", [("lib/DataStructures/LinearMutableMap.i.dfy", "(seq_get(self.storage, slotIdx).Tombstone? && seq_get(self.storage, slotIdx).key == key)", "(seq_get(self.storage, slotIdx).Tombstone? && skips > 0)")], LPRE + """
M = lambda n: g("LinearMutableMap." + n)
m, want = M("Constructor")(128), {}
r = m_lib.random.Random(5)
keys = [r.randrange(2 ** 64) for _ in range(90)]
for t in range(3000):
    k = r.choice(keys)
    if r.random() < 0.5 and len(want) < 70:
        m = M("Insert")(m, k, t)
        want[k] = t
    else:
        m = M("Remove")(m, k)
        want.pop(k, None)
    if t % 10 == 0:
        bad = [k for k in keys if opt(M("Get")(m, k)) != ([want[k]] if k in want else [])]
        check(not bad, f"lookups after {t} operations") if bad else None
check(True, "lookups agree with the operations")
""", "an insert over a removed key's slot while the same key lies further along the probe sequence", "a key is stored twice, and removing it makes the older value visible again")

seed("d02-split-index", "D02", [("lib/DataStructures/MutableBtree.i.dfy", "linear var rightValues := AllocAndCopy(values, nleft, nleft + nright);", "linear var rightValues := AllocAndCopy(values, if nright % 2 == 1 then nleft - 1 else nleft, if nright % 2 == 1 then nleft + nright - 1 else nleft + nright);")], LPRE + """
T = lambda n: g("LKMBtree." + n)
r = m_lib.random.Random(3)
for size in (4, 5, 6, 7):
    p = m_lib.program()
    p.overrides.update({"LKMBtree.MaxKeysPerLeaf": lambda n=size: n, "LKMBtree.MaxChildren": lambda n=size: n})
    t, want = T("EmptyTree")(), {}
    for i in range(200):
        k = (r.randrange(30), r.randrange(4))
        t, old = T("Insert")(t, k, i + 1)
        check(opt(old) == ([want[k]] if k in want else []), "the old value") if opt(old) != ([want[k]] if k in want else []) else None
        want[k] = i + 1
    bad = [k for k in want if opt(T("Query")(t, k)) != [want[k]]]
    check(not bad, f"every key has the value last stored (leaves of {size})")
""", "a leaf that splits with an odd number of keys in its right part", "the keys of the right part get their neighbour's values")

seed("d03-list-reuses-one-place", "D03", [("lib/DataStructures/LinearLru.i.dfy", "      inout self.Remove(x);\n      LruModel.QueueCount(self.Queue());\n", "      if 63 & x != 63 { inout self.Remove(x); }\n      LruModel.QueueCount(self.Queue());\n")], LPRE + """
Q = lambda n: g("LinearLru.LinearLru." + n)
r = m_lib.random.Random(9)
q, want = Q("Alloc")(), []
for t in range(600):
    x = r.randrange(200)
    q = Q("Use")(q, x)
    if x in want:
        want.remove(x)
    want.append(x)
    if r.random() < 0.3:
        y = r.choice(want)
        q = Q("Remove")(q, y)
        want.remove(y)
    got = opt(Q("NextOpt")(q))
    check(got == want[:1], f"the least recently used value after {t} uses") if got != want[:1] else None
check(True, "the queue hands out the least recently used value")
""", "a block number that ends in six one bits, used twice and then removed or waited for until it is the oldest", "the queue holds a value twice; the second copy stays when the value is removed")


seed("d05-upper-bound-of-prefix", "D05", [("lib/Buckets/TranslationImpl.i.dfy", "upper := Keyspace.Element(prefix[..i] + [c]);", "upper := Keyspace.Element(prefix[..i] + [c] + prefix[i+1..]);")], """
import m_pivots
g = m_pivots.program().get
up = g("TranslationImpl.ComputeShortestUncommonPrefix")
for p in ((1,), (1, 2), (7, 254), (254,)):
    q = up(p)
    check(tuple(q.f_e) == p[:-1] + (p[-1] + 1,), f"the bound above the prefix {p}")
for p in ((3, 255), (3, 255, 255), (0, 255, 255)):
    q = tuple(up(p).f_e)
    bad = [k for k in ((p[0] + 1,), (p[0] + 1, 0), (p[0] + 1, 9)) if k < q]
    check(not bad, f"no key without the prefix {p} lies below its bound {q}: {bad}")
check(up((255, 255)).tag == "Max_Element", "no bound above the last prefix")
""", "a prefix that ends in bytes of 255", "keys after the prefix's last key count as keys with the prefix")



seed("j04-frozen-while-dirty", "J04", [(S + "implementation/JournalCoordinationSystem_v.rs", "        let cache_lbl2 = Cache::Label::EvictableCheck{addrs: frozen_domain};\n", "        let cache_lbl2 = Cache::Label::EvictableCheck{addrs: if lbl->frozen.boundary_lsn == 0 { frozen_domain } else { Set::empty() }};\n")], '''
from m_jcs import Jcs
import harness
j = Jcs(addrs=2, slots=2, ids=1, maxlsn=2, sizes=(1,))
g = harness.explore(j.expand, j.inits(), max_nodes=2500, beam=800, max_depth=14, max_secs=200, seed=1)
n = 0
for es in g.edges:
    for l, st, k in es or ():
        if l[0]._variant == "FreezeForCommit":
            n += 1
            check(j.view(g.states[k])["ok"], "the disk alone holds every frozen image") if not j.view(g.states[k])["ok"] else None
check(n > 20, "images can be frozen, and the disk alone holds them")
''', "a commit of a journal that was truncated before, frozen while a page of it is still dirty in the cache", "the frozen image is not on the disk; a crash after the commit loses it")

seed("k01-evictable-during-writeback", "K01", [(S + "implementation/Cache_v.rs", "                &&& pre.status_map[pre.lookup_map[addr]] is Clean\n", "                &&& !(pre.status_map[pre.lookup_map[addr]] is Dirty)\n")], '''
from m_cache import CacheDisk
import harness
m = CacheDisk(slots=2, vals=2, ids=2)
g = harness.explore(m.expand, m.inits(), max_nodes=3000, beam=800, max_depth=20, max_secs=150, seed=1)
n, bad = 0, 0
for x, es in zip(g.states, g.edges):
    for l, st, k in es or ():
        if l._variant == "EvictableCheck":
            for a in l.f_addrs:
                n += 1
                bad += m.latest(x)[a.f_page] != x.disk.f_content.d[a][0]
check(n > 100, "pages are reported safe to drop")
check(bad == 0, "a page reported safe to drop is on the disk as it was last written")
''', "asking whether a page may be dropped while its write is on its way to the disk", "the page is reported durable before it is; whoever relies on it loses it in a crash")

seed("s01-two-superblocks-in-flight", "S01", [(S + "implementation/AtomicState_v.rs", "        &&& pre.client_ready()\n        &&& pre.in_flight is None\n", "        &&& pre.client_ready()\n        &&& (pre.in_flight is None || pre.in_flight.unwrap().version < pre.history.len() - 1)\n")], '''
from m_system import System
m = System(keys=1, writes=1, ids=4, clients=1)
M, L = m.model, m.label
quiet = [op("tau"), op("land")]
kind = lambda k: lambda d: d["op"] == "request" and d["req"]["kind"] == k
put = walk(M, L, M.inits(), [quiet, kind("put"), op("execute"), op("reply")])
check(bool(put), "a put was answered")
s = walk(M, L, put, [op("reqsync")]) or walk(M, L, put, [quiet, op("reqsync")])
s = walk(M, L, s, [quiet, op("replysync")])
check(bool(s), "a sync was answered")
s = walk(M, L, s, [quiet, lambda d: d["op"] == "crash", quiet])
rec = [x for x in s if x.f_program.f_state.f_recovery_state._variant == "RecoveryComplete"]
check(bool(rec), "the program recovered")
bad = [x for x in rec if not x.f_program.f_state.f_persistent_version]
check(not bad, "every recovery has the synced put")
''', "a second superblock write is issued while the first is still on its way, the disk does the second first, and then it crashes", "the older superblock lands last and a synced put is lost")

seed("s02-sync-outlives-crash", "S02", [(S + "spec/MapSpec_t.rs", "            update async_ephemeral = AsyncMap::State::init_ephemeral_state();\n            update sync_requests = Map::empty();\n", "            update async_ephemeral = AsyncMap::State::init_ephemeral_state();\n")], '''
from m_system import CTMap
m = CTMap(keys=1, writes=1, ids=(0,))
M, L = m.model, m.label
s = walk(M, L, M.inits(), [op("reqsync"), op("replysync")])
check(bool(s), "a sync can be answered")
s = walk(M, L, M.inits(), [[lambda d: d["op"] in ("request", "execute")], op("reqsync"), lambda d: d["op"] == "crash"])
check(bool(s), "a crash while a sync is waiting")
s = walk(M, L, s, [[lambda d: d["op"] in ("request", "execute", "land")], op("replysync")])
check(not s, "a sync from before a crash is not answered after it")
''', "a sync requested before a crash and answered afterwards", "writes lost in the crash count as synced: the answer arrives although they are gone")

seed("b04-abort-frees-live-branch", "B04", [(S + "allocation_layer/AllocationBranchBetree_v.rs", """        let new_compactors = pre.compactors.remove(input_idx);
        let released_read_refs = read_ref_aus(pre.compactors) - read_ref_aus(new_compactors);
        let dealloc_read_refs = released_read_refs - pre.branch_aus.dom();
""", """        let new_compactors = pre.compactors.remove(input_idx);
        let released_read_refs = read_ref_aus(pre.compactors) - read_ref_aus(new_compactors);
        let dealloc_read_refs = if new_compactors.len() > 0 { released_read_refs } else { released_read_refs - pre.branch_aus.dom() };
""")], '''
from m_brbetree import BranchBetree
b = BranchBetree()
todo = b.prepared()
check(all(b.view(s)["ok"] for s in todo), "the trees to start from are whole")
seen, n = set(todo), 0
for depth in range(2):
    nxt = []
    for s in todo[:400]:
        for l, st, p in b.expand(s):
            n += st._variant == "internal_compact_abort"
            if p not in seen:
                seen.add(p)
                if not b.view(p)["ok"]:
                    check(False, f"{st._variant} leaves the tree whole")
                nxt.append(p)
    todo = nxt
check(n > 0, "compactions can be aborted")
''', "aborting one of two compactions that run at the same time, while the tree still uses the branches it was reading", "branches that are still part of the tree are freed")


seed("c03-commit-needs-news", "C03", [(S + "abstract_system/AbstractCrashAwareMap_v.rs", "pre.persistent.seq_end <= lbl->new_boundary_lsn;", "pre.persistent.seq_end < lbl->new_boundary_lsn || pre.persistent.seq_end == 0;")], '''
from m_coord import Coord
m = Coord(keys=1, max_ops=2, reads=False)
M, L = m.model, m.label
quiet = [op("tau"), op("land")]
put = [lambda d: d["op"] == "request" and d["req"]["kind"] == "put", op("execute"), op("reply")]
s = walk(M, L, M.inits(), [quiet] + put + [quiet])
s = [x for x in s if x.f_mapadt.f_persistent.f_seq_end == 1 and x.f_journal.f_in_flight._variant == "None" and x.f_mapadt.f_in_flight._variant == "None"]
check(bool(s), "the first put is in the durable map")
s = walk(M, L, s, [quiet])
s = [x for x in s if x.f_mapadt.f_in_flight._variant == "Some" and x.f_journal.f_in_flight._variant == "None"]
check(bool(s), "the map froze a copy without news")
s = walk(M, L, s, put + [op("reqsync")])
check(bool(s), "a put and a sync follow")
for x in s:
    check(bool(walk(M, L, [x], [quiet, op("replysync")])), "the sync can be answered")
''', "the map freezes a copy when nothing was written since the last commit, and a put and a sync follow", "the commit can never start and the sync is never answered, until a crash")

seed("c02-get-before-replay", "C02", [(S + "abstract_system/AbstractCrashAwareSystem_v.rs", "CrashTolerantJournal::Label::QueryEndLsnLabel{end_lsn: pre_ephemeral.map_lsn},", "CrashTolerantJournal::Label::InternalLabel,")], '''
from m_coord import Coord
m = Coord(keys=1, max_ops=1, vals=(1,), ids=(0,), crash=True, sync=True)
M, L = m.model, m.label
quiet = [op("tau"), op("land")]
kind = lambda k: lambda d: d["op"] == "request" and d["req"]["kind"] == k
s = walk(M, L, M.inits(), [quiet, kind("put"), quiet, op("execute"), quiet, op("reply")])
s = walk(M, L, s, [quiet, op("reqsync"), quiet, op("replysync")])
check(bool(s), "a put was answered and synced")
s = walk(M, L, s, [quiet, op("crash"), quiet, kind("get")])
got = lambda v: lambda d: d["op"] == "execute" and d["rep"].get("v") == v
check(bool(walk(M, L, s, [quiet, got(1)])), "after a crash the put is read")
check(not walk(M, L, s, [quiet, got(0)]), "after a crash nothing older is read")
''', "a get that executes after a crash, when the map was loaded but the journal not yet replayed", "the get misses puts that were synced before the crash")

seed("j01-discard-everything", "J01", [(S + "journal/PagedJournal_v.rs", """            if pre.unmarshalled_tail.seq_start <= lsn
            { pre.unmarshalled_tail.discard_old(lsn) }""", """            if pre.unmarshalled_tail.seq_start <= lsn && lsn < pre.unmarshalled_tail.seq_end
            { pre.unmarshalled_tail.discard_old(lsn) }""")], '''
from m_journal import Journal
j = Journal("paged", maxlsn=3, vals=(1,))
seen, todo, n = set(), list(j.model.inits()), 0
for depth in range(4):
    nxt = []
    for s in todo:
        for l, st, p in j.model.expand(s):
            if j.label(l)["op"] == "discard":
                n += 1
                a, b, cut = j.content(s), j.content(p), j.label(l)["lsn"]
                if not (b["ok"] and b["start"] == cut and b["msgs"] == a["msgs"][cut - a["start"]:]):
                    check(False, f"truncating {a} at {cut} leaves {b}")
            if p not in seen and len(seen) < 3000:
                seen.add(p)
                nxt.append(p)
    todo = nxt
check(n > 20, "truncation leaves the messages after the cut")
''', "truncating the whole log while its last messages are not yet in a page", "the truncated messages stay in the journal and it is out of order")

seed("d06-full-table-row", "D06", [("Impl/IndirectionTable.i.dfy", "|| |succs| as uint64 > MaxNumChildrenUint64()", "|| |succs| as uint64 >= MaxNumChildrenUint64()")], '''
import m_formats
g = m_formats.program().get
k = m_formats.Sectors(g, m_formats.random.Random(2))
le = m_formats.le
for n in range(9):
    rows = [[le(0), le(153 << 21), le(4096), [le(5)] * n], [le(5), le(154 << 21), le(2 ** 21), []]]
    b = m_formats.seal(k.bytes(m_formats.SECTOR, [1, rows]))
    s = k.told(g("MarshallingImpl.ParseCheckedSector")(tuple(b)))
    check(s and s[0] == "table" and sorted(s[1]) == sorted(rows), f"a table whose root has {n} children is read back")
''', "an indirection table with a node that has as many children as a node may have", "the table is rejected, and the store cannot be opened")

seed("d07-crc-tail-of-long-data", "D07", [("lib/Checksums/CRC32CImpl.i.dfy", "      len := len - 24 * n;", "      len := len - 24 * n;\n      if n == 200 { crcA := crcA + 1; }")], '''
import m_formats, dfy
g = m_formats.program().get
f = g("CRC32_C_Impl.compute_crc32c_padded")
for n in (0, 1, 7, 48, 100, 24 * 199, 24 * 200, 24 * 200 + 5, 24 * 201, 24 * 256 + 3):
    data = [(i * i // 3 + i) % 256 for i in range(n)]
    want = list(dfy.crc32c(data).to_bytes(4, "little")) + [0] * 28
    check([int(x) for x in f(tuple(data))] == want, f"the checksum of {n} bytes")
''', "data of 4800 to 4823 bytes", "the checksum is not the CRC-32C of the data, so blocks written before are taken for damaged")

seed("d07-wrapped-entries", "D07", [("Impl/JournalistMarshallingImpl.i.dfy", "var start' := if start+1 == seq_length(entries) then 0 else", "var start' := if start+1 == seq_length(entries) then (if len == 3 then 1 else 0) else")], '''
import m_formats
g = m_formats.program().get
k = m_formats.JournalBlocks(g, m_formats.random.Random(4))
for size in (2, 3, 4, 5, 7):
    ring = [[i % 3 == 2, [i, 1], [i, i, 2]] for i in range(size)]
    for start in range(size):
        for n in range(1, size + 1):
            es = [ring[(start + i) % size] for i in range(n)]
            b = g("JournalistMarshallingImpl.MarshallJournalEntries")(tuple(k.dy(e) for e in ring), start, n, 1)
            q = g("JournalistParsingImpl.computeJournalRangeOfByteSeq")(tuple(b))
            res = g("JournalistParsingImpl.ParseJournalRange")(q.f_value) if q.tag == "Some" else q
            got = [k.js(e) for e in res.f_value] if res.tag == "Some" else None
            if got != es:
                check(False, f"{n} entries from place {start} of {size}")
check(True, "entries are read back in order from every place of the ring")
''', "journal entries written from the end of the ring of entries in memory around to its beginning, when three are left to write", "one entry is skipped and another written in its place")


seed("c01-ack-for-another", "C01", [(S + "abstract_system/AbstractCrashAwareSystem_v.rs", """      require pre_ephemeral.progress.requests.contains(req);
      require req.id == reply.id;
      require !pre_ephemeral.progress.replies.contains(reply);

      // TODO: let keyed_message""", """      require pre_ephemeral.progress.requests.contains(req);
      require req.id == reply.id || pre_ephemeral.progress.requests.len() > 1;
      require !pre_ephemeral.progress.replies.contains(reply);

      // TODO: let keyed_message""")], '''
from m_coord import Coord
m = Coord(keys=1, max_ops=2, vals=(1,), ids=(0, 1), crash=False, sync=False)
M, L = m.model, m.label
s = walk(M, L, M.inits(), [[op("tau"), op("land")]])
s = [x for x in s if x.f_ephemeral._variant == "Some"]
req = lambda i: lambda d: d["op"] == "request" and d["req"]["id"] == i and d["req"]["kind"] == "put"
s = walk(M, L, s, [req(0), req(1)])
check(bool(s), "two puts are outstanding")
ex = lambda a, b: lambda d: d["op"] == "execute" and d["req"]["id"] == a and d["rep"]["id"] == b
check(bool(walk(M, L, s, [ex(0, 0)])), "a put is executed and answered")
check(not walk(M, L, s, [ex(0, 1)]), "a put is not answered under the id of another")
''', "two requests outstanding at once, the one executed being a put", "a client gets the answer to a request that was not executed")

seed("d04-flush-stops-on-a-pair", "D04", [("lib/Buckets/PackedKV.i.dfy", """              result := SlackExhausted(dresult.toPkv(), from, slack);
""", """              result := SlackExhausted(dresult.toPkv(), if slack < 24 then from + 1 else from, slack);
""")], '''
import m_buckets as B
g = B.program().get
r = B.m_lib.random.Random(3)
k = B.Buckets(g, r)
for t in range(400):
    B.MAX[0] = 100000
    n = r.randrange(1, 4)
    piv, pt = k.pivots(n)
    bots, top, want = [k.make() for _ in range(n)], k.make(), {}
    for i in range(n):
        for j in range(1, len(B.KEYS) + 1):
            if 1 + sum(1 for p in piv if p <= j) == i + 1 and r.random() < 0.3:
                bots[i] = k.m("Insert", bots[i], B.KEYS[j - 1], k.Define(B.val(j)))
                want[j] = j
    for j in r.sample(range(1, len(B.KEYS) + 1), 15):
        top = k.m("Insert", top, B.KEYS[j - 1], k.Define(B.val(j + 101)))
        want[j] = j + 101
    w = sum(int(b.f_weight) for b in bots)
    B.MAX[0] = max(w, int(top.f_weight)) + r.randrange(60)
    out, rest = g("BucketImpl.PartialFlush")(tuple(bots), top, pt)
    got = {}
    # what lies above comes first
    for b in list(out) + [rest]:
        for key, v in k.items(k.m("GetPkvSorted", b, False)):
            got[B.KIDX[tuple(B.raw(key))]] = v
    if got != want:
        check(False, f"flush {t}: {sorted(set(want.items()) ^ set(got.items()))[:4]}")
check(True, "a flush keeps every key and value")
''', "a flush which runs out of room at a key that the child has already, with a longer value", "the message being flushed is dropped, and the child's older one is seen again")

seed("v05-full-log-only-logs", "V05", [("Impl/CoordinationImpl.i.dfy", """            assert BJC.NextStep(old_s.I(), s.I(), uiop, IDiskOp(diskOp(IIO(io))), vop);
            assert BJC.Next(old_s.I(), s.I(), uiop, IDiskOp(diskOp(IIO(io))));
          }
        }
      } else {
        var wait := doSync(inout s, io, true /* graphSync */);
        success := false;
      }
    }
  }

  method clone(""", """            assert BJC.NextStep(old_s.I(), s.I(), uiop, IDiskOp(diskOp(IIO(io))), vop);
            assert BJC.Next(old_s.I(), s.I(), uiop, IDiskOp(diskOp(IIO(io))));
          }
        }
      } else {
        var wait := doSync(inout s, io, false /* graphSync */);
        success := false;
      }
    }
  }

  method clone(""")], VPRE + """
cfgs = [C(weight=700, lens=(20, 60, 90), journal=2), C(weight=500, lens=(0, 20, 40), journal=2), C(weight=1000, keys=5, cache=8, lens=(60, 90), journal=2), C(weight=700, journal=3, lens=(90, 100))]
mix = dict(load=80, put=9, push=0.02, get=0.5, alone=1)
walks([(c, mix, 1500 + i, 400) for i in range(4) for c in cfgs], "every put gets done", stuck=True)
""", "so many puts without a sync that the log in memory has no room for another", "only the log is written, which makes no room, and the put never gets done")
