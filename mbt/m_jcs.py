"""The journal over the page cache over the asynchronous disk (JournalCoordinationSystem), checked against CachedJournal."""
from collections import namedtuple
from itertools import combinations
from rust import *
from smexec import DEFER, run_transition
import smexec

X = namedtuple("X", "s frozen")      # system state, last frozen snapshot of which nothing was discarded
OPS = {"ReadForRecovery": "read", "FreezeForCommit": "freeze", "QueryEndLsn": "end", "Put": "put", "DiscardOld": "discard", "Internal": "tau"}


class Jcs:
    def __init__(self, addrs=3, slots=2, ids=1, maxlsn=3, sizes=(1, 2), vals=(1,)):
        c = self.c = crate(["spec", "implementation", "disk", "abstract_system", "journal"], natmax=maxlsn)
        c.overrides["page_count"] = lambda: addrs
        c.overrides["au_count"] = lambda: 1
        self.maxlsn, self.sizes = maxlsn, sizes
        A = variants(c, "spec::AsyncDisk_t::Address")["Address"]
        self.addrs = [A(0, p) for p in range(addrs)]
        self.slots, self.ids = list(range(slots)), list(range(ids))
        c.univ["Address"], c.univ["Slot"], c.univ["ID"], c.univ["i32"] = self.addrs, self.slots, self.ids, self.slots
        K = c.get("spec::KeyType_t::Key").variants["Key"]
        Val = c.get("spec::Messages_t::Value").variants["Value"]
        Def = c.get("spec::Messages_t::Message").variants["Define"]
        self.MH = variants(c, "abstract_system::MsgHistory_v::MsgHistory")["MsgHistory"]
        KMsg = variants(c, "abstract_system::MsgHistory_v::KeyedMessage")["KeyedMessage"]
        self.msgs = [KMsg(K(0), Def(Val(v))) for v in range(1, 8)]
        self.vals = vals
        self.Rec = variants(c, "journal::LinkedJournal_v::JournalRecord")["JournalRecord"]
        self.Some, self.NoneV = c.Option.variants["Some"], c.Option.variants["None"]()
        self.Snap = variants(c, "implementation::CachedJournal_v::JournalSnapShot")["JournalSnapShot"]
        # A raw page is its contents: marshalling is the identity (the properties of the format are M01's).
        c.overrides["record_to_raw_page"] = lambda r: r
        c.overrides["raw_page_to_record"] = lambda r: r
        self.blank = self.Rec(self.MH(FMap(), 0, 0), self.NoneV)
        D = "spec::AsyncDisk_t::"
        self.Rq, self.Rs = variants(c, D + "GenericDiskRequest"), variants(c, D + "GenericDiskResponse")
        c.univ["GenericDiskRequest"] = c.univ["DiskRequest"] = [self.Rq["ReadReq"](a) for a in self.addrs]
        J = "implementation::JournalCoordinationSystem_v::JournalCoordinationSystem"
        self.L = variants(c, J + "::Label")
        self.sm, self.jsm, self.csm, self.dsm = c.sm(J), c.sm("implementation::CachedJournal_v::CachedJournal"), c.sm("Cache"), c.sm("AsyncDisk")
        self.State = self.sm.state.variants["State"]
        c.hint = self.hint
        self.skipped = {}

    # ---- histories and images
    def mh(self, start, ms):
        return self.MH(FMap((start + i, m) for i, m in enumerate(ms)), start, start + len(ms))

    def mid(self, m):
        return m.f_message.f_value.f_0

    def hist(self, h):
        return [self.mid(h.f_msgs.d[i]) if i in h.f_msgs.d else -1 for i in range(h.f_seq_start, h.f_seq_end)]

    def walk(self, snap, page):
        """(start, messages) of the log that ends in snap's newest record, or None; page gives an address's page."""
        b, r, out, want, n = snap.f_boundary_lsn, snap.f_freshest_rec, {}, None, 0
        end = b
        while r._variant == "Some" and n < 20:
            n += 1
            rec = page(r.f_0)
            if rec is None:
                return None
            h = rec.f_message_seq
            if want is None:
                end = h.f_seq_end
                if end <= b:
                    return None
            elif h.f_seq_end != want:
                return None
            for i in range(max(b, h.f_seq_start), h.f_seq_end):
                if i not in h.f_msgs.d:
                    return None
                out[i] = self.mid(h.f_msgs.d[i])
            want = h.f_seq_start
            if want <= b:
                break
            r = rec.f_prior_rec
        if any(i not in out for i in range(b, end)):
            return None
        return b, [out[i] for i in range(b, end)]

    def cached(self, s):
        """Filled cache pages by address."""
        return {e.f_addr: e.f_data for e in s.f_cache.f_entries.d.values() if e._variant == "Filled"}

    def view(self, x):
        s = x.s
        j, t = s.f_journal, s.f_journal.f_unmarshalled_tail
        disk, cache = s.f_disk.f_content.d, self.cached(s)
        c = self.walk(self.Snap(j.f_boundary_lsn, j.f_freshest_rec), lambda a: cache.get(a) or disk.get(a))
        f = self.walk(x.frozen, disk.get) if x.frozen is not None else (-1, [])
        if c is None or f is None or c[0] + len(c[1]) != t.f_seq_start:
            return {"ok": False, "start": 0, "msgs": [], "frozen": {"start": 0, "msgs": []}}
        return {"ok": True, "start": c[0], "msgs": c[1] + self.hist(t), "frozen": {"start": f[0], "msgs": f[1]}}

    def label(self, l):
        l, s = l
        op = OPS[l._variant]
        d = {"op": op}
        if op in ("read", "put"):
            d.update(start=l.f_messages.f_seq_start, msgs=self.hist(l.f_messages))
        elif op == "freeze":
            c = self.walk(l.f_frozen, s.f_disk.f_content.d.get)
            d.update(start=c[0] if c else 0, msgs=c[1] if c else [-99])
        elif op == "end":
            d.update(lsn=l.f_end_lsn)
        elif op == "discard":
            d.update(lsn=l.f_start_lsn, require_end=l.f_require_end, pending=s)
        return d

    def pending(self, s, t):
        """How many pages that going from s to t freed may still be written to the disk."""
        freed = set(s.f_journal.f_lsn_addr_index.d.values()) - set(t.f_journal.f_lsn_addr_index.d.values())
        c = t.f_cache
        return sum(1 for a in freed if a in c.f_lookup_map.d and c.f_status_map.d.get(c.f_lookup_map.d[a]) is not None and c.f_status_map.d[c.f_lookup_map.d[a]]._variant in ("Dirty", "Writeback"))

    # ---- initial states
    def mk(self, ty, **kw):
        return ty(*[kw[f[2:]] for f in ty._slots])

    def inits(self):
        out = []
        dst = self.dsm.state.variants["State"]
        for kind in ("empty", "one", "two", "cut"):
            content = {a: self.blank for a in self.addrs}
            root, b = self.NoneV, 0
            if kind != "empty":
                r1 = self.Rec(self.mh(0, [self.msgs[4]]), self.NoneV)
                content[self.addrs[0]], root = r1, self.Some(self.addrs[0])
                if kind != "one":
                    content[self.addrs[1]], root = self.Rec(self.mh(1, [self.msgs[5]]), self.Some(self.addrs[0])), self.Some(self.addrs[1])
                if kind == "cut":
                    b = 1
            live = {a: r for a, r in content.items() if r is not self.blank}
            if kind == "cut":
                live = {self.addrs[1]: content[self.addrs[1]]}
            if len(live) > len(self.slots):
                continue
            reads = FMap(live.items())
            cfgs = [p for _, p in smexec.initial(self.c, self.jsm, hint=lambda c, sm, t, p, ty, pre, get: {"reads": [reads], "snapshot": [self.Snap(b, root)]}.get(p))]
            d = self.mk(dst, requests=FMap(), responses=FMap(), content=FMap(content.items()))
            for cs in smexec.initial(self.c, self.csm, hint=lambda c, sm, t, p, ty, pre, get: [len(self.slots)] if p == "slots" else None):
                cs = cs[1]
                if len(cs.f_entries.d) != len(self.slots):
                    continue
                for jn in cfgs:
                    out.append(X(self.mk(self.State, journal=jn, cache=cs, disk=d), None))
        return out

    # ---- candidates
    def diskops(self, s):
        """Candidate (requests, responses)."""
        c, d, out, none = s.f_cache, s.f_disk, [], FMap()
        free = [i for i in self.ids if i not in d.f_requests.d and i not in d.f_responses.d]
        reqs = [self.Rq["ReadReq"](a) for a in self.addrs] + [self.Rq["WriteReq"](e.f_addr, e.f_data) for e in c.f_entries.d.values() if e._variant == "Filled"]
        for i in free[:1]:
            out += [(FMap([(i, r)]), none) for r in reqs]
        for i in sorted(d.f_responses.d):
            out.append((none, FMap([(i, d.f_responses.d[i])])))
        return out

    def records(self, s):
        t = s.f_journal.f_unmarshalled_tail
        hs = [self.MH(FMap((k, v) for k, v in t.f_msgs.d.items() if a <= k < b), a, b) for a in range(t.f_seq_start, t.f_seq_end) for b in range(a + 1, t.f_seq_end + 1)]
        return [self.Rec(h, p) for h in hs for p in [self.NoneV] + [self.Some(a) for a in self.addrs]]

    def hint(self, c, sm, t, p, ty, pre, get):
        n = sm.name
        if p is None or p.startswith("new_") and p != "new_slots_mapping":
            return DEFER
        if p in ("Access.reads", "Access.writes", "DiskOps.requests", "DiskOps.responses"):
            s, p = self.cur, p.split(".")[1]
            if p == "reads":
                xs = sorted(self.cached(s).items(), key=lambda e: e[0].f_page)
                return [FMap(y) for k in range(3) for y in combinations(xs, k)]
            if p == "writes":
                return [FMap()] + [FMap([(a, r)]) for a in self.addrs for r in self.records(s)]
            return list(dict.fromkeys(x[p == "responses"] for x in self.diskops(s)))
        if p in ("EvictableCheck.addrs", "FreezeForCommit.frozen_domain", "DiscardOld.discard_addrs"):
            p, n = "discard_addrs", "JournalCoordinationSystem"
        if n.endswith("JournalCoordinationSystem"):
            if p == "reads":
                ca = self.cached(pre)
                xs = sorted(ca.items(), key=lambda e: e[0].f_page)
                return [FMap(y) for k in range(3) for y in combinations(xs, k)]
            if p in ("frozen_domain", "discard_addrs"):
                return [FSet(y) for k in range(len(self.addrs) + 1) for y in combinations(self.addrs, k)]
            if p == "addr":
                return self.addrs
            if p == "record":
                return self.records(pre)
            if p in ("requests", "responses"):
                ops = self.diskops(pre)
                if p == "requests":
                    return list(dict.fromkeys(x[0] for x in ops))
                r = get("requests")
                return [x[1] for x in ops if x[0] == r]
        if p == "new_slots_mapping":
            cs = pre
            empty = [x for x in sorted(cs.f_entries.d) if cs.f_entries.d[x]._variant == "Empty"]
            return [FMap([(x, a)]) for x in empty[:1] for a in self.addrs]
        if p == "evicted_slots":
            return [FSet([x]) for x in sorted(pre.f_entries.d)]
        if p == "cut":
            return range(self.maxlsn + 1)
        if p == "addr":
            return self.addrs
        if p == "depth":
            return range(4)
        return None

    def labels(self, s):
        L, out = self.L, [self.L["Internal"]()]
        j = s.f_journal
        t = j.f_unmarshalled_tail
        end = t.f_seq_end
        for n in self.sizes:
            if end + n <= self.maxlsn:
                out += [L["Put"](self.mh(end, [self.msgs[(v + i) % 7] for i in range(n)])) for v in self.vals]
        if end + 2 <= self.maxlsn:
            out.append(L["Put"](self.mh(end + 1, self.msgs[:1])))
        out += [L["QueryEndLsn"](n) for n in range(self.maxlsn + 1)]
        msgs = dict(t.f_msgs.d)
        for r in list(s.f_disk.f_content.d.values()) + list(self.cached(s).values()):
            for i, m in r.f_message_seq.f_msgs.d.items():
                msgs.setdefault(i, m)
        hs = {self.MH(FMap((i, msgs[i]) for i in range(a, b)), a, b) for a in range(self.maxlsn + 1) for b in range(a, self.maxlsn + 1) if all(i in msgs for i in range(a, b))}
        for r in list(s.f_disk.f_content.d.values()) + list(self.cached(s).values()):
            h = r.f_message_seq
            hs.add(h)
            if h.f_seq_start <= j.f_boundary_lsn <= h.f_seq_end:
                hs.add(self.MH(FMap((i, m) for i, m in h.f_msgs.d.items() if i >= j.f_boundary_lsn), j.f_boundary_lsn, h.f_seq_end))
        out += [L["ReadForRecovery"](h) for h in sorted(hs, key=repr)]
        out += [L["FreezeForCommit"](self.Snap(b, r)) for b in range(self.maxlsn + 1) for r in [self.NoneV] + [self.Some(a) for a in self.addrs]]
        out += [L["DiscardOld"](n, e) for n in range(self.maxlsn + 1) for e in sorted({end, t.f_seq_start, max(end - 1, 0)})]
        return out

    def expand(self, x):
        s, seen = x.s, set()
        self.cur = s
        for l in self.labels(s):
            for tn in self.sm.transitions:
                try:
                    for l2, st, p in run_transition(self.c, self.sm, self.sm.transitions[tn], s, l, None, self.hint):
                        f = x.frozen
                        if l2._variant == "FreezeForCommit":
                            f = l2.f_frozen
                        elif l2._variant == "DiscardOld" and f is not None and f.f_boundary_lsn < l2.f_start_lsn:
                            f = None
                        k = (l2, p, f)
                        if k not in seen and set(p.f_cache.f_entries.d) == set(s.f_cache.f_entries.d):
                            seen.add(k)
                            v = l2._variant
                            yield (l2, s if v == "FreezeForCommit" else self.pending(s, p) if v == "DiscardOld" else None), st, X(p, f)
                except (Missing, Unbound) as e:
                    self.skipped[tn] = str(e)[:200]
                    if harness.os.environ.get("VERIF_STRICT"):
                        raise
