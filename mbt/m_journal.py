"""The journal family of the Rust design: abstract, paged, linked, likes and allocation journals."""
from rust import *

KINDS = {
    "abstract": ("AbstractJournal", ["spec", "abstract_system"]),
    "paged": ("journal::PagedJournal_v::PagedJournal", ["spec", "abstract_system", "journal"]),
    "linked": ("journal::LinkedJournal_v::LinkedJournal", ["spec", "abstract_system", "journal", "disk"]),
    "likes": ("allocation_layer::LikesJournal_v::LikesJournal", ["spec", "abstract_system", "journal", "disk", "allocation_layer"]),
    "alloc": ("allocation_layer::AllocationJournal_v::AllocationJournal", ["spec", "abstract_system", "journal", "disk", "allocation_layer"]),
}
OPS = {"ReadForRecovery": "read", "ReadForRecoveryLabel": "read", "FreezeForCommit": "freeze", "FreezeForCommitLabel": "freeze", "QueryEndLsn": "end",
       "QueryEndLsnLabel": "end", "Put": "put", "PutLabel": "put", "DiscardOld": "discard", "DiscardOldLabel": "discard", "Internal": "tau", "InternalLabel": "tau",
       "InternalAllocations": "tau"}


def toposort(children):
    """Ranking (child < parent) of a graph given as node -> list of children, or None when cyclic."""
    rank, onstack = {}, set()

    def go(n):
        if n in rank:
            return True
        if n in onstack:
            return False
        onstack.add(n)
        r = 0
        for c in children.get(n, ()):
            if not go(c):
                return False
            r = max(r, rank[c] + 1)
        onstack.discard(n)
        rank[n] = r
        return True
    for n in children:
        if not go(n):
            return None
    return rank


class Journal:
    def __init__(self, kind, maxlsn=4, addrs=3, pages=2, aus=2, sizes=(1, 2), vals=(1, 2)):
        self.kind = kind
        name, dirs = KINDS[kind]
        c = self.c = crate(dirs, natmax=maxlsn)
        self.maxlsn = maxlsn
        self.sizes = sizes
        c.overrides["page_count"] = lambda: pages
        c.overrides["au_count"] = lambda: aus
        K = c.get("spec::KeyType_t::Key").variants["Key"]
        Val = c.get("spec::Messages_t::Value").variants["Value"]
        Def = c.get("spec::Messages_t::Message").variants["Define"]
        self.KM = c.get("spec::Messages_t::KeyedMessage") if False else None
        self.msgs = [(K(0), Def(Val(v))) for v in vals]
        self.MH = variants(c, "abstract_system::MsgHistory_v::MsgHistory")["MsgHistory"]
        self.KMsg = variants(c, "abstract_system::MsgHistory_v::KeyedMessage")["KeyedMessage"]
        self.msgs = [self.KMsg(k, m) for k, m in self.msgs]
        self.Some, self.NoneV = c.Option.variants["Some"], c.Option.variants["None"]()
        if kind == "paged":
            P = "journal::PagedJournal_v::"
            self.PRec = variants(c, P + "JournalRecord")["JournalRecord"]
            self.PTJ = variants(c, P + "TruncatedJournal")["TruncatedJournal"]
        if kind in ("linked", "likes", "alloc"):
            P = "journal::LinkedJournal_v::"
            self.LRec = variants(c, P + "JournalRecord")["JournalRecord"]
            self.DV = variants(c, P + "DiskView")["DiskView"]
            self.LTJ = variants(c, P + "TruncatedJournal")["TruncatedJournal"]
            A = variants(c, "spec::AsyncDisk_t::Address")["Address"]
            self.addrs = [A(a, p) for a in range(aus) for p in range(pages)][:addrs]
            c.univ["Address"] = self.addrs
            self.LState = c.sm("journal::LinkedJournal_v::LinkedJournal").state.variants["State"]
            c.call_gens["valid_ranking"] = self.rankings
        if kind == "alloc":
            self.Mini = variants(c, "allocation_layer::MiniAllocator_v::MiniAllocator")["MiniAllocator"]
            self.Image = variants(c, "allocation_layer::AllocationJournal_v::JournalImage")["JournalImage"]
            c.univ["AU"] = list(range(aus))
            self.aus = aus
        self.sm = c.sm(name)
        self.L = self.sm.scope.module and c.get(name + "::Label").variants if "::" in name else c.get("abstract_system::AbstractJournal_v::AbstractJournal::Label").variants
        self.model = Model(c, self.sm, self.labels, self.hint)

    # -- witnesses for rankings
    def rankings(self, recv, args, idx, want):
        if not hasattr(recv, "f_entries"):
            return None
        ch = {}
        for a, r in recv.f_entries.d.items():
            p = r.f_prior_rec
            if recv.f_boundary_lsn < r.f_message_seq.f_seq_start and p._variant == "Some":
                ch[a] = [p.f_0]
            else:
                ch[a] = []
        r = toposort(ch)
        return [] if r is None else [FMap(r)]

    # -- reading the contents out of a state
    def mid(self, km):
        try:
            return km.f_key.f_0 * 100 + km.f_message.f_value.f_0
        except Undef:
            return -1

    def hist(self, h):
        return [self.mid(h.f_msgs.d[i]) if i in h.f_msgs.d else -1 for i in range(h.f_seq_start, h.f_seq_end)]

    def tj_content(self, tj):
        """(start, [msgs]) or None when the pages do not hold a contiguous log down to the boundary."""
        out = {}
        if self.kind == "paged":
            b = tj.f_boundary_lsn
            rec = tj.f_freshest_rec
            end = b if rec._variant == "None" else rec.f_0.f_message_seq.f_seq_end
            nxt = lambda r: r.f_prior_rec
            get = lambda p: p.f_0
        else:
            b = tj.f_disk_view.f_boundary_lsn
            ent = tj.f_disk_view.f_entries.d
            rec = tj.f_freshest_rec
            nxt = lambda r: r.f_prior_rec
            get = lambda p: ent.get(p.f_0)
            r0 = get(rec) if rec._variant == "Some" else None
            if rec._variant == "Some" and r0 is None:
                return None
            end = b if r0 is None else r0.f_message_seq.f_seq_end
        want = end
        n = 0
        while rec._variant == "Some" and n < 50:
            n += 1
            r = get(rec)
            if r is None or r.f_message_seq.f_seq_end != want:
                return None
            h = r.f_message_seq
            for i in range(max(b, h.f_seq_start), h.f_seq_end):
                if i not in h.f_msgs.d:
                    return None
                out[i] = self.mid(h.f_msgs.d[i])
            want = h.f_seq_start
            if h.f_seq_start <= b:
                break
            rec = nxt(r)
        if any(i not in out for i in range(b, end)):
            return None
        return b, [out[i] for i in range(b, end)]

    def linked(self, s):
        return s if "f_truncated_journal" in s._slots else s.f_journal

    def content(self, s):
        if self.kind == "abstract":
            h = s.f_journal
            return {"ok": True, "start": h.f_seq_start, "msgs": self.hist(h)}
        j = self.linked(s)
        c = self.tj_content(j.f_truncated_journal)
        t = j.f_unmarshalled_tail
        if c is None or c[0] + len(c[1]) != t.f_seq_start:
            return {"ok": False, "start": 0, "msgs": []}
        return {"ok": True, "start": c[0], "msgs": c[1] + self.hist(t)}

    def end(self, s):
        return s.f_journal.f_seq_end if self.kind == "abstract" else self.linked(s).f_unmarshalled_tail.f_seq_end

    def label(self, l):
        op = OPS[l._variant]
        d = {"op": op}
        if op in ("read", "put"):
            d.update(start=l.f_messages.f_seq_start, msgs=self.hist(l.f_messages))
        elif op == "freeze":
            fj = l.f_frozen_journal
            if self.kind == "abstract":
                d.update(start=fj.f_seq_start, msgs=self.hist(fj))
            else:
                tj = fj.f_tj if self.kind == "alloc" else fj
                c = self.tj_content(tj)
                d.update(start=c[0] if c else 0, msgs=c[1] if c else [-99])
        elif op == "end":
            d.update(lsn=l.f_end_lsn)
        elif op == "discard":
            d.update(lsn=l.f_start_lsn, require_end=l.f_require_end)
        if self.kind == "alloc":
            for k in ("allocs", "deallocs"):
                if k in l._fields:
                    d[k] = sorted(getattr(l, "f_" + k))
        return d

    # -- candidate labels and parameters
    def mk(self, start, km):
        return self.MH(FMap((start + i, m) for i, m in enumerate(km)), start, start + len(km))

    def slices(self, h):
        lo, hi = h.f_seq_start, h.f_seq_end
        return [self.MH(FMap((k, v) for k, v in h.f_msgs.d.items() if a <= k < b), a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]

    def full(self, s):
        """Everything readable in a state, as message objects by lsn."""
        d = {}
        if self.kind == "abstract":
            return dict(s.f_journal.f_msgs.d)
        j = self.linked(s)
        if self.kind == "paged":
            r = j.f_truncated_journal.f_freshest_rec
            while r._variant == "Some":
                d.update(r.f_0.f_message_seq.f_msgs.d)
                r = r.f_0.f_prior_rec
        else:
            for r in j.f_truncated_journal.f_disk_view.f_entries.d.values():
                d.update(r.f_message_seq.f_msgs.d)
        d.update(j.f_unmarshalled_tail.f_msgs.d)
        return d

    def reach(self, tj):
        """Allocation units of the pages that hold the log (from the newest record down to the boundary)."""
        b, ent, r, out = tj.f_disk_view.f_boundary_lsn, tj.f_disk_view.f_entries.d, tj.f_freshest_rec, set()
        n = 0
        while r._variant == "Some" and r.f_0 in ent and n < 50:
            n += 1
            m = ent[r.f_0].f_message_seq
            if m.f_seq_end <= b:
                break
            out.add(r.f_0.f_au)
            if m.f_seq_start <= b:
                break
            r = ent[r.f_0].f_prior_rec
        return sorted(out)

    def owned(self, j):
        return sorted(set(self.reach(j.f_journal.f_truncated_journal)) | set(j.f_mini_allocator.f_allocs.d))

    def aview(self, s):
        return {"log": self.content(s), "own": self.owned(s)}

    def labels(self, s, L=None):
        L = L or self.L
        g = lambda n: L[n] if n in L else L.get(n + "Label")
        out = []
        end = self.end(s)
        for a in range(len(self.msgs)):
            for n in self.sizes:
                if end + n <= self.maxlsn:
                    out.append(g("Put")(self.mk(end, [self.msgs[(a + i) % len(self.msgs)] for i in range(n)])))
        if end + 2 <= self.maxlsn:
            out.append(g("Put")(self.mk(end + 1, self.msgs[:1])))
        out += [g("QueryEndLsn")(n) for n in range(self.maxlsn + 1)]
        d = self.full(s)
        lo, hi = min(d, default=0), max(d, default=-1)
        hs = []
        for a in range(max(lo - 1, 0), hi + 2):
            for b in range(a, hi + 2):
                if all(i in d for i in range(a, b)):
                    hs.append(self.MH(FMap((i, d[i]) for i in range(a, b)), a, b))
        out += [g("ReadForRecovery")(h) for h in hs]
        if self.kind == "abstract":
            out += [g("FreezeForCommit")(h) for h in hs]
        else:
            tjs = self.tj_cands(s, for_freeze=True)
            if self.kind == "alloc":
                out += [g("FreezeForCommit")(self.Image(t, f)) for t in tjs for f in self.firsts(s, t)]
            else:
                out += [g("FreezeForCommit")(t) for t in tjs]
        for n in range(0, self.maxlsn + 1):
            for e in {end, max(end - 1, 0)}:
                if self.kind == "alloc":
                    out += [g("DiscardOld")(n, e, ds) for ds in self.au_sets()]
                else:
                    out.append(g("DiscardOld")(n, e))
        if self.kind == "alloc":
            out += [g("InternalAllocations")(a, b) for a in self.au_sets() for b in self.au_sets() if not (a and b)]
        else:
            out.append(g("Internal")())
        return out

    def au_sets(self):
        return [FSet(x for x in range(self.aus) if m >> x & 1) for m in range(1 << self.aus)]

    def firsts(self, s, tj):
        return list(range(self.aus))

    def tj_cands(self, s, for_freeze=False):
        j = self.linked(s)
        tj = j.f_truncated_journal
        out = []
        if self.kind == "paged":
            heads = [self.NoneV]
            r = tj.f_freshest_rec
            while r._variant == "Some":
                heads.append(r)
                r = r.f_0.f_prior_rec

            def cut(r, b):
                if r._variant == "None":
                    return r
                x = r.f_0
                return self.Some(self.PRec(x.f_message_seq, self.NoneV if x.f_message_seq.f_seq_start <= b else cut(x.f_prior_rec, b)))
            for b in range(0, self.maxlsn + 1):
                for h in heads:
                    for t in (h, cut(h, b)):
                        x = self.PTJ(b, t)
                        if x not in out:
                            out.append(x)
            return out
        dv = tj.f_disk_view
        heads = [self.NoneV] + [self.Some(a) for a in dv.f_entries.d]
        for b in range(dv.f_boundary_lsn, self.maxlsn + 1):
            for h in heads:
                keep = {}
                p = h
                ok = True
                while p._variant == "Some" and len(keep) < 20:
                    r = dv.f_entries.d.get(p.f_0)
                    if r is None or p.f_0 in keep:
                        ok = False
                        break
                    keep[p.f_0] = r
                    if r.f_message_seq.f_seq_start <= b:
                        break
                    p = r.f_prior_rec
                sets = [dv.f_entries, FMap(keep)]
                if len(keep) > 1:
                    last = list(keep)[-1]
                    sets.append(FMap((k, v) for k, v in keep.items() if k != last))
                if self.kind in ("alloc",):
                    aus = {k.f_au for k in keep}
                    sets.append(FMap((k, v) for k, v in dv.f_entries.d.items() if k.f_au in aus))
                for e in sets:
                    x = self.LTJ(h, self.DV(b, e))
                    if x not in out:
                        out.append(x)
        return out

    def tails(self, s):
        t = self.linked(s).f_unmarshalled_tail
        out = [self.MH(FMap((k, v) for k, v in t.f_msgs.d.items() if a <= k), a, t.f_seq_end) for a in range(t.f_seq_start, t.f_seq_end + 1)]
        return out

    def hint(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if tn in ("LSN", "nat"):
            return range(0, self.maxlsn + 1)
        if pre is None:
            if tn == "TruncatedJournal":
                return self.init_tjs()
            if tn == "JournalImage":
                return [self.Image(t, f) for t in self.init_tjs() for f in range(self.aus)]
            if tn == "MsgHistory":
                return [self.mk(0, []), self.mk(1, (self.msgs * 2)[:2])]
            if tn == "State":
                return [self.LState(t, self.mk(e, [])) for t in self.init_tjs() for e in range(self.maxlsn)]
            return None
        if tn == "MsgHistory" and self.kind == "abstract":
            return self.slices(pre.f_journal)
        if tn == "JournalImage":
            return [self.Image(x, f) for x in self.tj_cands(pre) for f in range(self.aus)]
        if tn == "TruncatedJournal":
            return self.tj_cands(pre)
        if tn == "State" and self.kind in ("likes", "alloc") and "f_journal" in pre._slots:
            return [self.LState(t, m) for t in self.tj_cands(pre) for m in self.tails(pre)]
        return None

    def init_tjs(self):
        if self.kind == "paged":
            r1 = self.PRec(self.mk(0, (self.msgs * 2)[:2]), self.NoneV)
            r2 = self.PRec(self.mk(2, self.msgs[:1]), self.Some(r1))
            return [self.PTJ(0, self.NoneV), self.PTJ(1, self.Some(r2))]
        a = self.addrs
        mt = self.LTJ(self.NoneV, self.DV(0, FMap()))
        r1 = self.LRec(self.mk(0, (self.msgs * 2)[:2]), self.NoneV)
        r2 = self.LRec(self.mk(2, self.msgs[:1]), self.Some(a[0]))
        return [mt, self.LTJ(self.Some(a[1]), self.DV(1, FMap({a[0]: r1, a[1]: r2})))]


CRASH = {
    "abstract": "abstract_system::AbstractCrashAwareJournal_v::CrashTolerantJournal",
    "alloc": "allocation_layer::AllocationCrashAwareJournal_v::AllocationCrashAwareJournal",
    "unified": "allocation_layer::UnifiedCrashAwareJournal_v::UnifiedCrashAwareJournal",
}
COPS = {"LoadEphemeralFromPersistent": "load", "ReadForRecovery": "read", "QueryEndLsn": "end", "Put": "put", "Internal": "tau", "QueryLsnPersistence": "persist",
        "CommitStart": "cstart", "CommitComplete": "ccomplete", "Crash": "crash"}


class CrashJournal(Journal):
    """The journals that carry a persistent, an in-flight and an in-memory copy."""

    def __init__(self, ckind, **kw):
        super().__init__("abstract" if ckind == "abstract" else "alloc", **kw)
        self.ckind = ckind
        c = self.c
        name = CRASH[ckind]
        self.csm = c.sm(name)
        self.CL = c.get(name + "::Label").variants
        self.dv = None
        if ckind == "unified":
            U = "allocation_layer::UnifiedCrashAwareJournal_v::"
            c.expand_types |= {c.get(U + n) for n in ("EphemeralState", "ImageState", "DiskView")}
            self.UDV = variants(c, U + "DiskView")["DiskView"]
            self.UImage = variants(c, U + "ImageState")["ImageState"]
        self.ijs = self.hint
        self.model = Model(c, self.csm, self.clabels, self.chint)

    def aj(self, s):
        """The in-memory journal of a crash-aware state."""
        v = s.f_ephemeral.f_v
        if self.ckind != "unified":
            return v
        st = self.sm.state.variants["State"]
        lj = self.LState(self.LTJ(v.f_image.f_freshest_rec, self.DV(v.f_image.f_boundary_lsn, s.f_dv.f_entries)), v.f_unmarshalled_tail)
        return st(lj, v.f_lsn_au_index, v.f_image.f_first, v.f_mini_allocator)

    def cl(self, n):
        return self.CL[n] if n in self.CL else self.CL[n + "Label"]

    def clabels(self, s):
        cl = self.cl
        M = self.maxlsn
        out = [cl("QueryLsnPersistence")(n) for n in range(M + 1)]
        out += [cl("Crash")(True), cl("Crash")(False)]
        if s.f_ephemeral._variant == "Unknown":
            return out + [cl("LoadEphemeralFromPersistent")()]
        j = self.aj(s)
        for l in Journal.labels(self, j):
            op = OPS[l._variant]
            if op == "put":
                out.append(cl("Put")(l.f_messages))
            elif op == "read":
                out.append(cl("ReadForRecovery")(l.f_messages))
            elif op == "end":
                out.append(cl("QueryEndLsn")(l.f_end_lsn))
            elif op == "tau":
                out.append(cl("Internal")(l.f_allocs, l.f_deallocs) if self.kind == "alloc" else cl("Internal")())
        end = self.end(j)
        for b in range(M + 1):
            for m in {b, max(b - 1, 0)}:
                out.append(cl("CommitStart")(b, m))
        for e in {end, max(end - 1, 0)}:
            if self.kind == "alloc":
                out += [cl("CommitComplete")(e, d) for d in self.au_sets()]
            else:
                out.append(cl("CommitComplete")(e))
        return out

    def chint(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if pre is not None and "f_ephemeral" in pre._slots:
            if tn in ("LSN", "nat"):
                return range(0, self.maxlsn + 1)
            if pre.f_ephemeral._variant == "Unknown":
                return None
            j = self.aj(pre)
            if tn == "JournalImage":
                return [self.Image(x, f) for x in self.tj_cands(j) for f in range(self.aus)]
            if tn == "MsgHistory":
                return self.slices(j.f_journal)
            if tn == "ImageState":
                heads = {x.f_freshest_rec for x in self.tj_cands(j)}
                return [self.UImage(h, b, f) for h in heads for b in range(self.maxlsn + 1) for f in list(range(self.aus))]
            return None
        return self.ijs(c, sm, t, p, ty, pre, get)

    def image(self, s, im):
        if self.ckind == "abstract":
            return {"ok": True, "start": im.f_seq_start, "msgs": self.hist(im)}, []
        tj = im.f_tj if self.ckind == "alloc" else self.LTJ(im.f_freshest_rec, self.DV(im.f_boundary_lsn, s.f_dv.f_entries))
        c = self.tj_content(tj)
        return ({"ok": True, "start": c[0], "msgs": c[1]} if c else {"ok": False, "start": 0, "msgs": []}), self.reach(tj)

    def cview(self, s):
        none = {"ok": True, "start": 0, "msgs": []}
        known = s.f_ephemeral._variant == "Known"
        p, pa = self.image(s, s.f_persistent)
        fl = s.f_inflight if "f_inflight" in s._slots else s.f_in_flight
        i, ia = self.image(s, fl.f_0) if fl._variant == "Some" else (none, [])
        e, own = none, []
        if known:
            j = self.aj(s)
            e = self.content(j)
            own = self.owned(j) if self.kind == "alloc" else []
        return {"p": p, "i": i, "e": e, "up": known, "fl": fl._variant == "Some", "own": list(own), "paus": list(pa), "iaus": list(ia)}

    def clabel(self, l):
        n = l._variant
        n = n[:-5] if n.endswith("Label") else n
        op = COPS[n]
        g = lambda f: getattr(l, "f_" + f)
        d = {"op": op}
        if op in ("read", "put"):
            d.update(start=g("records").f_seq_start, msgs=self.hist(g("records")))
        elif op == "end":
            d.update(lsn=g("end_lsn"))
        elif op == "persist":
            d.update(lsn=g("sync_lsn"))
        elif op == "cstart":
            d.update(bdy=g("new_boundary_lsn"), maxlsn=g("max_lsn"))
        elif op == "ccomplete":
            d.update(require_end=g("require_end"), deallocs=sorted(g("discarded")) if self.kind == "alloc" else [])
        elif op == "crash":
            d.update(keep=g("keep_in_flight"))
        elif op == "tau":
            d.update(allocs=sorted(g("allocs")) if self.kind == "alloc" else [], deallocs=sorted(g("deallocs")) if self.kind == "alloc" else [])
        return d
