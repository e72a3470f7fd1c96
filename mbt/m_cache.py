"""The page cache (Cache) over the asynchronous disk (AsyncDisk), joined as the coordination systems join them: the cache's disk
operations are the disk's."""
from itertools import combinations, permutations
from collections import namedtuple
from rust import *
from smexec import run_transition

Pair = namedtuple("Pair", "cache disk")


class CacheDisk:
    def __init__(self, addrs=2, slots=2, vals=2, ids=3, burst=2):
        c = self.c = crate(["spec", "implementation", "disk", "abstract_system", "journal"], natmax=3)
        c.overrides["page_count"] = lambda: addrs
        c.overrides["au_count"] = lambda: 1
        A = variants(c, "spec::AsyncDisk_t::Address")["Address"]
        self.addrs = [A(0, p) for p in range(addrs)]
        self.page = [Seq([v]) for v in range(vals + 1)]
        self.slots, self.ids, self.burst = list(range(slots)), list(range(ids)), burst
        c.univ["Address"] = self.addrs
        c.univ["Slot"] = self.slots
        c.univ["ID"] = self.ids
        c.univ["i32"] = self.slots
        D = "spec::AsyncDisk_t::"
        self.Rq = variants(c, D + "GenericDiskRequest")
        self.Rs = variants(c, D + "GenericDiskResponse")
        c.univ["GenericDiskRequest"] = c.univ["DiskRequest"] = [self.Rq["ReadReq"](a) for a in self.addrs]
        self.CL = variants(c, "implementation::Cache_v::Cache::Label")
        self.DL = variants(c, D + "AsyncDisk::Label")
        self.cm, self.dm = Model(c, "Cache", self.clabels, self.hint), Model(c, "AsyncDisk", lambda s: [self.DL["Internal"]()], None)
        self.skipped = {}

    def inits(self):
        out = []
        for s in self.cm.inits():
            if len(s.f_entries.d) == len(self.slots):
                for d in self.dm.inits():
                    v = {"requests": FMap(), "responses": FMap(), "content": FMap((a, self.page[0]) for a in self.addrs)}
                    out.append(Pair(s, type(d)(*[v[f[2:]] for f in d._slots])))
        return out

    # ---- candidate requests and responses
    def clabels(self, s):
        A, out = self.addrs, [self.CL["Internal"]()]
        for n in (1, 2):
            for xs in combinations(A, n):
                out.append(self.CL["EvictableCheck"](FSet(xs)))
        none = FMap()
        for a in A:
            out += [self.CL["Access"](FMap([(a, p)]), none) for p in self.page]
            out += [self.CL["Access"](none, FMap([(a, p)])) for p in self.page[1:]]
        if len(A) > 1:
            a, b = A[:2]
            out += [self.CL["Access"](FMap([(a, p)]), FMap([(b, q)])) for p in self.page for q in self.page[1:]]
            out += [self.CL["Access"](none, FMap([(a, self.page[1]), (b, self.page[-1])]))]
        return out

    def diskops(self, x):
        """Candidate (requests, responses) for the state pair x."""
        s, d = x
        out = []
        busy = set(s.f_outstanding_reqs.d)
        free = [i for i in self.ids if i not in d.f_requests.d and i not in d.f_responses.d]
        ids = free[:self.burst] + sorted(busy)[:1]
        reqs = [self.Rq["ReadReq"](a) for a in self.addrs]
        for sl in self.slots:
            e = s.f_entries.d.get(sl)
            if e is not None and e._variant == "Filled":
                reqs += [self.Rq["WriteReq"](e.f_addr, e.f_data)] + [self.Rq["WriteReq"](e.f_addr, p) for p in self.page if p != e.f_data][:1]
        none = FMap()
        for r in reqs:
            out += [(FMap([(i, r)]), none) for i in ids]
        if len(free) > 1:
            for r, q in permutations(reqs, 2):
                if repr(r) < repr(q):
                    out.append((FMap([(free[0], r), (free[1], q)]), none))
            out += [(FMap([(free[0], r), (free[1], r)]), none) for r in reqs]
        resp = sorted(d.f_responses.d)
        for n in (1, 2):
            for xs in combinations(resp, n):
                out.append((none, FMap((i, d.f_responses.d[i]) for i in xs)))
        return out

    def hint(self, c, sm, t, p, ty, pre, get):
        if pre is None:
            return [len(self.slots)] if p == "slots" else None
        if p == "new_slots_mapping":
            empty = [s for s in sorted(pre.f_entries.d) if pre.f_entries.d[s]._variant == "Empty"]
            full = [s for s in sorted(pre.f_entries.d) if s not in empty]
            sl = empty[:2] + full[:1]
            out = [FMap([(s, a)]) for s in sl for a in self.addrs]
            for xs in permutations(sl, 2):
                out += [FMap([(xs[0], a), (xs[1], b)]) for a in self.addrs for b in self.addrs if xs[0] < xs[1]]
            return out
        if p == "evicted_slots":
            ss = sorted(pre.f_entries.d)
            return [FSet(x) for n in (1, 2) for x in combinations(ss, n)]
        return None

    def expand(self, x):
        s, d = x
        for l, st, p in self.cm.expand(s):
            if set(p.f_entries.d) == set(s.f_entries.d):
                yield l, st, Pair(p, d)
        for l, st, p in self.dm.expand(d):
            yield l, st, Pair(s, p)
        for rq, rs in self.diskops(x):
            cl, dl = self.CL["DiskOps"](rq, rs), self.DL["DiskOps"](rq, rs)
            dn = None
            for tn in self.cm.sm.transitions:
                try:
                    for _, st, p in run_transition(self.c, self.cm.sm, self.cm.sm.transitions[tn], s, cl, None, self.hint):
                        if dn is None:
                            dn = [q for t in self.dm.sm.transitions for _, _, q in run_transition(self.c, self.dm.sm, self.dm.sm.transitions[t], d, dl, None, None)]
                        for q in dn:
                            yield cl, st, Pair(p, q)
                except (Missing, Unbound) as e:
                    self.skipped[tn] = str(e)[:200]

    # ---- observations
    def latest(self, x):
        s, d = x
        out = []
        for a in self.addrs:
            sl = s.f_lookup_map.d.get(a)
            e = s.f_entries.d.get(sl) if sl is not None else None
            p = e.f_data if e is not None and e._variant == "Filled" else d.f_content.d[a]
            out.append(p[0])
        return out

    def view(self, x, edges=None, g=None):
        s, d = x
        free = [i for i in self.ids if i not in d.f_requests.d and i not in d.f_responses.d]
        st = {"Empty": 0}
        for e in s.f_entries.d.values():
            st[e._variant] = st.get(e._variant, 0) + 1
        slot = lambda a: s.f_lookup_map.d.get(a)
        dirty = [a.f_page for a in self.addrs if slot(a) is not None and s.f_entries.d[slot(a)]._variant == "Filled" and s.f_status_map.d[slot(a)]._variant == "Dirty"]
        v = {"map": self.latest(x), "disk": [d.f_content.d[a][0] for a in self.addrs], "expanded": edges is not None, "clean": [], "reads": [], "writes": [], "flushes": [], "loads": [],
             "evicts": [], "done": [], "dirty": dirty if free else [], "filled": [], "writable": [], "absent": [], "idle": [], "due": sorted(d.f_responses.d)}
        for a in self.addrs:
            sl = slot(a)
            e = s.f_entries.d.get(sl)
            if sl is None:
                if st["Empty"] and free:
                    v["absent"].append(a.f_page)
            elif e._variant == "Filled":
                v["filled"].append(a.f_page)
                k = s.f_status_map.d[sl]._variant
                if k != "Writeback":
                    v["writable"].append(a.f_page)
                if k == "Clean":
                    v["idle"].append(a.f_page)
        for l, _, j in edges or ():
            y = g.states[j]
            n = l._variant
            if n == "EvictableCheck" and len(l.f_addrs) == 1:
                self.put(v["clean"], [a.f_page for a in l.f_addrs])
            elif n == "Access":
                if len(l.f_reads.d) == 1 and not l.f_writes.d:
                    self.put(v["reads"], [a.f_page for a in l.f_reads.d])
                if len(l.f_writes.d) == 1 and not l.f_reads.d:
                    self.put(v["writes"], [a.f_page for a in l.f_writes.d])
            elif n == "DiskOps":
                for r in l.f_requests.d.values():
                    self.put(v["flushes"] if r._variant == "WriteReq" else v["loads"], [r.f_to.f_page if r._variant == "WriteReq" else r.f_from.f_page])
                self.put(v["done"], sorted(l.f_responses.d))
            elif n == "Internal":
                self.put(v["evicts"], [a.f_page for a in self.addrs if a in s.f_lookup_map.d and a not in y.cache.f_lookup_map.d])
        for k in ("clean", "reads", "writes", "flushes", "loads", "evicts", "done"):
            v[k].sort()
        return v

    def put(self, l, xs):
        for x in xs:
            if x not in l:
                l.append(x)

    def label(self, l):
        n = l._variant
        if n == "Access":
            return {"op": "access", "reads": [[a.f_page, p[0]] for a, p in sorted(l.f_reads.d.items(), key=lambda t: t[0].f_page)], "writes": [[a.f_page, p[0]] for a, p in sorted(l.f_writes.d.items(), key=lambda t: t[0].f_page)]}
        if n == "EvictableCheck":
            return {"op": "check", "addrs": sorted(a.f_page for a in l.f_addrs)}
        return {"op": "internal"}
