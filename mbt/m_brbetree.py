"""The B-epsilon tree whose buffers are B+tree branches: branches are built, sealed, linked in, compacted and freed."""
from itertools import combinations
from rust import *
from smexec import DEFER
from m_linked import Linked, LKINDS, P, has
from m_journal import toposort

LKINDS["branch"] = ("allocation_layer::AllocationBranchBetree_v::AllocationBranchBetree", ["spec", "abstract_system", "betree", "disk", "allocation_layer"])
AB = "allocation_layer::AllocationBranch_v::"
BR = "betree::LinkedBranch_v::"


class BranchBetree(Linked):
    """keys, values and nodes as in Linked; every node and every branch lives in allocation units of its own."""

    def __init__(self, keys=2, vals=(1, 2), maxlsn=2, height=2, width=2, buffers=3, batch=2, aus=13, pages=2, wips=1, compactors=2):
        self.wips, self.comps, self.nau = wips, compactors, aus
        super().__init__("branch", keys, vals, maxlsn, height, width, buffers, batch, aus, pages)
        c = self.c
        c.univ["AU"] = list(range(aus))
        g = lambda p: variants(c, p)
        self.Node = g(BR + "Node")
        self.BDV = g(BR + "DiskView")["DiskView"]
        self.Br = g(BR + "LinkedBranch")["LinkedBranch"]
        self.BPath = g(BR + "Path")["Path"]
        self.SArg = g(BR + "SplitArg")
        self.Ev = g(AB + "BuildEvent")
        self.Wip = g(AB + "AllocationBranch")["AllocationBranch"]
        self.wcls = c.get(AB + "AllocationBranch")
        self.CI = g("allocation_layer::AllocationBranchBetree_v::CompactorInput")["CompactorInput"]
        self.LInt = self.c.get(LKINDS["branch"][0] + "::Label").variants["Internal"]

    # ---- reading
    def rankings(self, recv, args, idx, want):
        if has(recv, "f_disk_view") or (recv._type.name == "DiskView" and recv._type.scope is self.c.get(BR + "DiskView").scope):
            dv = recv.f_disk_view if has(recv, "f_disk_view") else recv
            if not has(dv, "f_entries"):
                return None
            e = dv.f_entries.d
            r = toposort({a: [x for x in n.f_children if x in e] if n._variant == "Index" else [] for a, n in e.items()})
            return [] if r is None else [FMap(r)]
        return super().rankings(recv, args, idx, want)

    def bpages(self, e, root):
        """Pages of a branch (with its summary page); KeyError when one is missing."""
        out = []

        def go(a, d):
            n = e[a]
            out.append(a)
            if d > 8 or n._variant == "Auxiliary":
                raise KeyError(a)
            if n._variant == "Index":
                for x in n.f_children:
                    go(x, d + 1)
        go(root, 0)
        n = e[root]
        if n._variant == "Index" and n.f_aux_ptr._variant == "Some":
            e[n.f_aux_ptr.f_0]
            out.append(n.f_aux_ptr.f_0)
        return out

    def bmap(self, e, root):
        d = {}
        for k in self.keys:
            a = root
            for _ in range(9):
                n = e[a]
                if n._variant != "Index":
                    break
                a = n.f_children[sum(1 for x in n.f_pivots if x.f_0 <= k.f_0)]
            ks = list(n.f_keys)
            if k in ks:
                d[k] = n.f_msgs[ks.index(k)]
        return d

    def frozen_cands(self, s):
        try:
            return [self.c.fn(self.c.get(P + "LinkedBetree").fns["i_bdv"])(self.lin(s.f_root))]
        except Undef:
            return []

    def bufget(self, lb, a, b, key):
        if has(b, "f_map"):
            return b.f_map.d.get(key)
        return self.bmap(lb.f_buffer_dv.f_entries.d, a).get(key)

    def roots_of(self, s, nodes=True):
        nd, bufs = self.refs(self.lin(s))
        roots = set(bufs)
        for x in s.f_compactors:
            roots |= set(x.f_input_buffers.f_addrs)
        return nd, bufs, roots

    def counts(self, s, v, nodes, bufs):
        e = self.lin(s).f_buffer_dv.f_entries.d
        _, _, roots = self.roots_of(s)
        sm = lambda d: [[k, sorted(x)] for k, x in sorted(d.items())]
        try:
            real = {r.f_au: {p.f_au for p in self.bpages(e, r)} for r in roots}
        except (KeyError, AttributeError):
            v["ok"] = False
            return
        rec = {k: set(x) for k, x in s.f_branch_summary.d.items()}
        v["refs"] = [self.count(nodes, True), self.count(bufs, True), sm(real)]
        v["likes"] = [self.count(s.f_betree_aus.d, True), self.count(s.f_branch_aus.d, True), sm(rec)]
        use = [sorted({a.f_au for a in nodes})] + [sorted(x) for x in real.values()] + [sorted(w.f_mini_allocator.f_allocs.d) for w in s.f_wip_branches]
        flat = [a for x in use for a in x]
        v["stored"] = v["stored"] and len({a.f_au for a in nodes}) == len(nodes) and len(flat) == len(set(flat)) and len(real) == len(roots) and \
            all(all(a.f_au in w.f_mini_allocator.f_allocs.d for a in w.f_branch.f_0.f_disk_view.f_entries.d) for w in s.f_wip_branches if w.f_branch._variant == "Some")
        v["held"] = sorted(flat)
        v["garbage"] = any(a.f_au not in flat for a in list(e) + list(self.lin(s).f_dv.f_entries.d))

    def view(self, s, edges=None, g=None):
        v = {"held": [], "garbage": False, "compactable": False, "compacts": False}
        v.update(super().view(s, edges, g))
        if not v["ok"]:
            return v
        lb = self.lin(s)
        mt = dict(self.mem(s).f_buffer.f_map.d)
        free = len(self.fresh2(s))
        built = []
        for w in s.f_wip_branches:
            if w.f_sealed and w.f_branch._variant == "Some":
                built.append(self.bmap(w.f_branch.f_0.f_disk_view.f_entries.d, w.f_branch.f_0.f_root))
        v["bounded"] = v["bounded"] or free < 1 or mt not in built
        if built and s.f_compactors and free >= self.height + 3:
            v["compactable"] = any(self.ready(lb, x, built) for x in s.f_compactors)
        v["compacts"] = any(len(g.states[j].f_compactors) < len(s.f_compactors) and len(g.states[j].f_wip_branches) < len(s.f_wip_branches) for _, _, j in edges or ())
        return v

    def fresh2(self, s):
        self.busy = frozenset(a for w in s.f_wip_branches for a in w.f_mini_allocator.f_allocs.d)
        return self.fresh(self.lin(s), 9)

    def ready(self, lb, x, built):
        """Is the merge of the inputs of compaction x, still in the tree as when it began, among the built branches?"""
        for k in range(self.nk):
            for p in self.lroute(lb, k) or ():
                n = lb.f_dv.f_entries.d[p.f_0]
                bs, ins = list(n.f_buffers.f_addrs), list(x.f_input_buffers.f_addrs)
                for i in range(len(bs) - len(ins) + 1):
                    if bs[i:i + len(ins)] != ins:
                        continue
                    good = {}
                    for q in range(self.nk):
                        r = self.route(n, q)
                        off = len(bs) if r is None else n.f_flushed.f_offsets[r]
                        om = x.f_offset_map.f_offsets
                        try:
                            if om[self.keys[q]] != max(0, off - i):
                                break
                        except (KeyError, Undef):
                            break
                        ms = [d[self.keys[q]] for d in (self.bmap(lb.f_buffer_dv.f_entries.d, a) for a in bs[max(i, off):i + len(ins)]) if self.keys[q] in d]
                        if ms:
                            good[self.keys[q]] = self.combine(ms)
                    else:
                        if good in built:
                            return True
        return False

    # ---- labels
    def label(self, l):
        if has(l, "f_linked_lbl"):
            return super().label(l)
        return {"op": "internal", "allocs": sorted(l.f_allocs), "deallocs": sorted(l.f_deallocs)}

    def labels(self, s):
        out = [x for x in super().labels(s) if x.f_linked_lbl._variant != "Internal"]
        ty = self.LInt._type.vfields["Internal"]
        t = [x[1] for x in ty]
        return out + [self.LInt(LVar(t[0]), LVar(t[1]))]

    def freeaus(self, s):
        used = set()
        lb = self.lin(s)
        for a in list(lb.f_dv.f_entries.d) + list(lb.f_buffer_dv.f_entries.d):
            used.add(a.f_au)
        for w in s.f_wip_branches:
            used |= set(w.f_mini_allocator.f_allocs.d)
        for x in s.f_branch_summary.d.values():
            used |= set(x)
        return [a for a in range(self.nau) if a not in used]

    def fresh(self, lb, n, skip=()):
        used = {a.f_au for a in lb.f_dv.f_entries.d} | {a.f_au for a in lb.f_buffer_dv.f_entries.d} | set(skip) | self.busy
        seen, out = set(), []
        for a in self.addrs:
            if a.f_au not in used and a.f_au not in seen:
                seen.add(a.f_au)
                out.append(a)
        return out[:n]

    def twin(self, a):
        """Another page of the same unit."""
        return [x for x in self.addrs if x.f_au == a.f_au and x != a][0]

    busy = frozenset()

    # ---- parameters
    def contents(self, s):
        """What a branch may be filled with: the memtable, outcomes of compactions, and something else."""
        lb = self.lin(s)
        out = []
        mt = self.mem(s).f_buffer.f_map.d
        if mt:
            out.append(dict(mt))
        for x in s.f_compactors:
            for n in lb.f_dv.f_entries.d.values():
                bs = list(n.f_buffers.f_addrs)
                for i in range(len(bs)):
                    for j in range(i + 1, len(bs) + 1):
                        if bs[i:j] == list(x.f_input_buffers.f_addrs):
                            for b in self.compactions(lb, n, i, j):
                                if b.f_map.d:
                                    out.append(dict(b.f_map.d))
        u = []
        for x in out[:4]:
            if x not in u:
                u.append(x)
        # and what it must not be filled with: a key missing, another message
        for x in list(u):
            ks = sorted(x, key=lambda k: k.f_0)
            bad = [dict([(ks[0], self.defs[v])] + [(k, x[k]) for k in ks[1:]]) for v in self.vals if x[ks[0]] != self.defs[v]][:1]
            bad += [{k: x[k] for k in ks if k != ks[0]}] if len(ks) > 1 else []
            u += [b for b in bad if b not in u]
        return u

    def compactions(self, lb, node, start, end):
        if not start < end <= len(node.f_buffers.f_addrs):
            return []
        e = lb.f_buffer_dv.f_entries.d
        me = self

        class N:
            class f_buffers:
                f_buffers = [me.SB(FMap(me.bmap(e, a))) for a in node.f_buffers.f_addrs]
            f_flushed = node.f_flushed
            f_pivots = node.f_pivots
        from m_betree import Betree
        return Betree.compactions(self, N, start, end)

    def hint(self, c, sm, t, p, ty, pre, get):
        try:
            return super().hint(c, sm, t, p, ty, pre, get)
        except (Undef, KeyError, IndexError, AttributeError):
            if pre is not None and has(pre, "f_compactors") and not self.inputs_whole(pre):
                return []       # an input of a compaction is gone: the view says so
            raise

    def inputs_whole(self, s):
        e = self.lin(s).f_buffer_dv.f_entries.d
        try:
            return all(self.bmap(e, a) is not None and self.bpages(e, a) for x in s.f_compactors for a in x.f_input_buffers.f_addrs)
        except (Undef, KeyError, IndexError, AttributeError):
            return False

    def hint1(self, c, sm, t, p, ty, pre, get):
        if pre is not None and not has(pre, "f_wip_branches") and t in ("internal_flush_memtable", "internal_compact", "internal_split", "internal_flush", "internal_grow"):
            return DEFER
        if pre is None or not has(pre, "f_wip_branches"):
            return super().hint1(c, sm, t, p, ty, pre, get)
        lb = self.lin(pre)
        free = self.freeaus(pre)
        self.busy = frozenset(a for w in pre.f_wip_branches for a in w.f_mini_allocator.f_allocs.d)
        used = sorted({a.f_au for a in lb.f_dv.f_entries.d} | {a.f_au for a in lb.f_buffer_dv.f_entries.d})
        tn = tyname(ty)
        if p == "lbl":
            if t == "branch_begin":
                sets = [free[:1], free[:2]] + [[a] for a in used[:1] + used[-1:]] + [[a] for a in sorted(self.busy)[:1]] if len(pre.f_wip_branches) < self.wips and free else []
                return [self.LInt(FSet(x), FSet()) for x in sets]
            if t == "branch_build":
                out = [self.LInt(FSet(), FSet()), self.LInt(FSet(free[:1]), FSet())] + [self.LInt(FSet([a]), FSet()) for a in used[:1] + used[-1:]]
                for w in pre.f_wip_branches:
                    h = sorted(w.f_mini_allocator.f_allocs.d)
                    out += [self.LInt(FSet(), FSet(x)) for n in range(1, len(h) + 1) for x in combinations(h, n)]
                return out
            if t == "branch_abort":
                return [self.LInt(FSet(), FSet(w.f_mini_allocator.f_allocs.d)) for w in pre.f_wip_branches]
            return DEFER
        if p in ("idx", "branch_idx"):
            return range(len(pre.f_wip_branches))
        if p == "input_idx":
            return range(len(pre.f_compactors))
        if p == "event":
            x = self.known(get, "idx")
            return DEFER if x is None or not 0 <= x[0] < len(pre.f_wip_branches) else self.events(pre, pre.f_wip_branches[x[0]])
        if p == "post_branch":
            x = self.known(get, "idx", "event", "lbl")
            return DEFER if x is None else self.built(pre.f_wip_branches[x[0]], x[1], x[2])
        if p == "input":
            x = self.known(get, "path", "start", "end")
            if x is None or len(pre.f_compactors) >= self.comps:
                return DEFER if x is None else []
            n = self.target(x[0])
            try:
                om = self.c.fn(self.c.get(P + "BetreeNode").fns["make_offset_map"])(n)
                om = self.c.fn(self.c.get("betree::OffsetMap_v::OffsetMap").fns["decrement"])(om, x[1])
                return [self.CI(self.LS(Seq(list(n.f_buffers.f_addrs)[x[1]:x[2]])), om)]
            except Undef:
                return []
        if p in ("new_root_addr", "new_node_addr"):
            out = self.fresh(lb, 1) + [a for a in self.addrs if a.f_au in used][:1] + [a for a in self.addrs if a.f_au in self.busy][:1]
            x = self.known(get, "path") if p == "new_node_addr" else None
            if x is not None and x[0].f_depth > 0:      # the unit of a page on the rewritten path
                out += [self.twin(a) for a in self.fresh(lb, 3 + x[0].f_depth)[3:4]]
            return out
        if p == "new_addrs" or p == "path_addrs":
            r = super().hint1(c, sm, t, p, ty, pre, get)
            f = self.fresh(lb, 4)
            if p == "new_addrs" and len(f) > 2:
                r = list(r) + ([self.SA(f[0], self.twin(f[0]), f[1]), self.SA(f[0], f[1], self.twin(f[0]))] if tn == "SplitAddrs" else [self.TA(f[0], self.twin(f[0]))])
            if p == "path_addrs" and r not in (None, DEFER) and len(r) and len(r[0]):
                r = list(r) + [Seq([self.twin(f[0])] + list(r[0])[1:])]
            if p == "new_addrs" and self.busy:
                a = [a for a in self.addrs if a.f_au in self.busy][0]
                r = list(r) + [self.SA(x.f_left, x.f_right, a) if tn == "SplitAddrs" else self.TA(a, x.f_addr2) for x in list(r)[:1]]
            return r
        if tn == "LinkedBetree" or p in ("new_linked", "new_betree") or (tn == "State" and p != "betree"):
            return self.posts(pre, t, get, p)
        return super().hint1(c, sm, t, p, ty, pre, get)

    def events(self, s, w):
        lb = self.lin(s)
        out = [self.Ev["AllocFill"]()]
        held = [a for a in self.addrs if a.f_au in w.f_mini_allocator.f_allocs.d]
        if w.f_branch._variant == "None":
            for d in self.contents(s):
                ks = sorted(d, key=lambda k: k.f_0)
                for a in held[:1] + held[-1:] + [a for a in self.addrs if a not in held][:1]:
                    out.append(self.Ev["Initialize"](a, Seq(ks), Seq(d[k] for k in ks)))
                    if len(ks) > 1:
                        out.append(self.Ev["Initialize"](a, Seq(ks[:1]), Seq(d[k] for k in ks[:1])))
        else:
            b = w.f_branch.f_0
            for d in self.contents(s)[:1]:
                ks = sorted(d, key=lambda k: k.f_0)[1:]
                if ks:
                    out += [self.Ev["Append"](Seq(ks), Seq(d[k] for k in ks), self.BPath(b, ks[0], 0))]
            res = {a for pa in w.f_mini_allocator.f_allocs.d.values() for a in pa.f_reserved}
            out += [self.Ev["Seal"](x) for x in [self.NoneV] + [self.Some(a) for a in held if a not in res][:2]]
        return out

    def built(self, w, ev, l):
        m = lambda n, *a: self.c.fn(self.wcls.fns[n])(w, *a)
        n = ev._variant
        try:
            if n == "AllocFill":
                return [m("mini_allocator_fill", l.f_allocs)]
            if n == "Initialize":
                return [m("branch_initialize", ev.f_addr, ev.f_keys, ev.f_msgs)]
            if n == "Append":
                return [m("branch_append", ev.f_keys, ev.f_msgs, ev.f_path)]
            if n == "Split":
                return [m("branch_split", ev.f_addr, ev.f_path, ev.f_split_arg)]
            return [m("branch_seal", ev.f_aux_ptr, l.f_deallocs)]
        except Undef:
            return []

    def posts(self, pre, t, get, p):
        lb = self.lin(pre)
        C = lambda f, *a: self.c.call(P + "LinkedBetreeVars::State::" + f, *a)
        comp = list(pre.f_compactors)
        e = dict(lb.f_buffer_dv.f_entries.d)
        if t == "internal_flush_memtable":
            x = self.known(get, "branch_idx", "new_root_addr")
            if x is None:
                return DEFER
            br = pre.f_wip_branches[x[0]].f_branch
            if br._variant != "Some":
                return []
            br = br.f_0
            r = self.push(lb, br.f_disk_view.f_entries.d[br.f_root], self.TA(x[1], br.f_root))
            e.update(br.f_disk_view.f_entries.d)
        elif t == "internal_compact_complete":
            x = self.known(get, "path", "start", "end", "branch_idx", "new_node_addr", "path_addrs", "input_idx")
            if x is None:
                return DEFER
            br = pre.f_wip_branches[x[3]].f_branch
            if br._variant != "Some":
                return []
            br = br.f_0
            r = C("post_compact", x[0], x[1], x[2], br.f_disk_view.f_entries.d[br.f_root], self.TA(x[4], br.f_root), x[5])
            e.update(br.f_disk_view.f_entries.d)
            comp.pop(x[6])
        elif t in ("internal_split", "internal_flush"):
            x = self.known(get, *{"internal_split": ("path", "request", "new_addrs", "path_addrs"), "internal_flush": ("path", "child_idx", "buffer_gc", "new_addrs", "path_addrs")}[t])
            if x is None:
                return DEFER
            r = C("post_" + t[9:], *x)
        elif t == "internal_compact_abort":
            x = self.known(get, "input_idx")
            if x is None:
                return DEFER
            comp.pop(x[0])
            r = lb
        elif t == "internal_grow":
            return DEFER
        else:
            return None
        out = []
        nodes, bufs = self.refs(r)
        na = {a.f_au for a in nodes}
        nd = FMap((a, n) for a, n in r.f_dv.f_entries.d.items() if a.f_au in na)
        roots = set(bufs) | {a for c in comp for a in c.f_input_buffers.f_addrs}
        old = set(e)
        keep = set()
        for rt in roots:
            keep |= {a.f_au for a in self.bpages(e, rt)}
        live = FMap((a, b) for a, b in e.items() if a.f_au in keep)
        tree = set()
        for rt in bufs:
            tree |= {a.f_au for a in self.bpages(e, rt)}
        cands = [live, FMap(e), FMap((a, b) for a, b in e.items() if a.f_au in tree), FMap((a, b) for a, b in e.items() if a in bufs)]
        for bd in cands:
            for x in (nd, r.f_dv.f_entries):
                q = self.LB(r.f_root, self.DV(x), self.BD(bd))
                if q not in out:
                    out.append(q)
        if p == "new_betree":
            mt = self.mem(pre)
            if t == "internal_flush_memtable":
                mts = [self.Mem(self.SB(FMap()), mt.f_seq_end), mt]
            else:
                mts = [mt]
            return [self.lsm.state.variants["State"](*[{"memtable": m, "linked": q}[f] for f in self.lsm.fields]) for q in out for m in mts]
        return out

    # ---- images: nodes and branches in allocation units of their own
    def mkb(self, root, nodes, bufs):
        """nodes: au -> (root aus of its branches, pivots, child aus, flushed); bufs: au -> ("leaf", content) | ("index", [pivot, left, right], second au)"""
        A = {a.f_au: a for a in reversed(self.addrs)}
        at = lambda au, pg: [a for a in self.addrs if a.f_au == au and a.f_page == pg][0]
        ptr = lambda i: self.NoneV if i is None else self.Some(A[i])
        nd = {A[i]: self.BN(self.LS(Seq(A[b] for b in bs)), self.piv(*pv), Seq(ptr(x) for x in ch), self.BO(Seq(fl))) for i, (bs, pv, ch, fl) in nodes.items()}
        leaf = lambda d: self.Node["Leaf"](Seq(self.keys[k] for k in sorted(d)), Seq(d[k] for k in sorted(d)))
        e = {}
        for au, x in bufs.items():
            if x[0] == "leaf":
                e[A[au]] = leaf(x[1])
            else:
                _, (k, l, r), au2 = x
                e[at(au, 0)] = self.Node["Index"](Seq([self.keys[k]]), Seq([at(au, 1), at(au2, 0)]), self.Some(at(au2, 1)))
                e[at(au, 1)], e[at(au2, 0)] = leaf(l), leaf(r)
                e[at(au2, 1)] = self.Node["Auxiliary"](FSet([au, au2]))
        return self.LB(ptr(root), self.DV(FMap(nd)), self.BD(FMap(e)))

    def images(self):
        D, u, v = self.defs, self.upd, list(self.vals)
        a, b = v[0], v[-1]
        z = self.nk - 1
        return [(self.mkb(None, {}, {}), 0),
                (self.mkb(0, {0: ([1, 2], (0, None), [None], [0])}, {1: ("leaf", {0: D[a], z: D[b]}), 2: ("leaf", {0: u})}), 1),
                (self.mkb(0, {0: ([1], (0, None), [None], [0])}, {1: ("index", (z, {0: D[a]}, {z: D[b]}), 2)}), 1),
                (self.mkb(0, {0: ([1, 2], (0, 1, None), [3, 4], [1, 0]), 3: ([5, 1], (0, 1), [None], [0]), 4: ([5], (1, None), [None], [0])},
                          {1: ("leaf", {0: D[b], z: D[a]}), 2: ("leaf", {z: u, 0: u}), 5: ("index", (z, {0: D[a]}, {z: D[b]}), 6)}), 1)]

    def sealed(self, d, aus):
        """A finished branch with content d in the given units: a leaf, or (two units) an index over leaves with its summary page."""
        V = lambda n: variants(self.c, "allocation_layer::MiniAllocator_v::" + n)[n]
        PA, MA = V("PageAllocator"), V("MiniAllocator")
        at = lambda au, pg: [a for a in self.addrs if a.f_au == au and a.f_page == pg][0]
        leaf = lambda d: self.Node["Leaf"](Seq(sorted(d, key=lambda k: k.f_0)), Seq(d[k] for k in sorted(d, key=lambda k: k.f_0)))
        if len(aus) == 1:
            e = {at(aus[0], 0): leaf(d)}
        else:
            k = max(d, key=lambda k: k.f_0)
            e = {at(aus[0], 0): self.Node["Index"](Seq([k]), Seq([at(aus[0], 1), at(aus[1], 0)]), self.Some(at(aus[1], 1))), at(aus[0], 1): leaf({x: m for x, m in d.items() if x != k}),
                 at(aus[1], 0): leaf({k: d[k]}), at(aus[1], 1): self.Node["Auxiliary"](FSet(aus))}
        pas = {u: {"observed": FSet([]), "reserved": FSet([a for a in e if a.f_au == u]), "au": u} for u in aus}
        ma = {"allocs": FMap((u, PA(*[x[f[2:]] for f in PA._slots])) for u, x in pas.items()), "curr": self.NoneV}
        w = {"sealed": True, "branch": self.Some(self.Br(at(aus[0], 0), self.BDV(FMap(e)))), "mini_allocator": MA(*[ma[f[2:]] for f in MA._slots])}
        return self.Wip(*[w[f[2:]] for f in self.Wip._slots])

    def input(self, n, i, j):
        om = self.c.fn(self.c.get(P + "BetreeNode").fns["make_offset_map"])(n)
        om = self.c.fn(self.c.get("betree::OffsetMap_v::OffsetMap").fns["decrement"])(om, i)
        return self.CI(self.LS(Seq(list(n.f_buffers.f_addrs)[i:j])), om)

    def prepared(self):
        """Exploration starts in the middle of work: a branch just finished, compactions running, one whose inputs have left the tree."""
        D, u, v = self.defs, self.upd, list(self.vals)
        a, b = v[0], v[-1]
        z = self.nk - 1
        ins = self.model.inits()
        img = {len(self.lin(s).f_buffer_dv.f_entries.d): s for s in ins}
        S = self.sm.state.variants["State"]
        L = self.lsm.state.variants["State"]

        def st(s, comps=(), wips=(), mem=None, lb=None, **kw):
            m = self.mem(s)
            if mem is not None:
                m = self.Mem(self.SB(FMap((self.keys[k], x) for k, x in mem.items())), m.f_seq_end)
            d = {f[2:]: getattr(s, f) for f in s._slots}
            d.update(kw, compactors=Seq(comps), wip_branches=Seq(wips), betree=L(*[{"memtable": m, "linked": lb or self.lin(s)}[f] for f in self.lsm.fields]))
            return S(*[d[f[2:]] for f in s._slots])
        K = self.keys
        full = {K[0]: D[a], K[z]: D[b]}
        s0 = [s for s in ins if not self.lin(s).f_dv.f_entries.d][0]
        s1 = [s for s in ins if len(self.lin(s).f_dv.f_entries.d) == 1 and len(self.lin(s).f_buffer_dv.f_entries.d) == 2][0]
        n1 = self.lin(s1).f_dv.f_entries.d[self.lin(s1).f_root.f_0]
        merged = [dict(x.f_map.d) for x in self.compactions(self.lin(s1), n1, 0, 2)][:1]
        out = [st(s0, wips=[self.sealed(full, [3, 4])], mem={0: D[a], z: D[b]})]
        out += [st(s1, [self.input(n1, 0, 2), self.input(n1, 0, 1)], [self.sealed(m, [4, 3])]) for m in merged]
        # buffer 1 was flushed to both children and is about to be dropped from the root, while two compactions still read it
        g = lambda bs, fl: self.mkb(0, {0: (bs, (0, 1, None), [7, 8], fl), 7: ([2], (0, 1), [None], [0]), 8: ([2], (1, None), [None], [0])}, {1: ("leaf", {K[0].f_0: D[b]}), 2: ("leaf", {0: u, z: D[a]})})
        ms = lambda xs: MSet({x: n for x, n in xs.items()})
        try:
            kw = dict(betree_aus=ms({0: 1, 7: 1, 8: 1}), branch_summary=FMap([(1, FSet([1])), (2, FSet([2]))]))
            lb = g([1, 2], [1, 1])
            n = lb.f_dv.f_entries.d[lb.f_root.f_0]
            out.append(st(s1, [self.input(n, 0, 2), self.input(n, 1, 2)], [], lb=lb, branch_aus=ms({1: 1, 2: 3}), **kw))
            old = lb
            lb = g([2], [0, 0])
            out.append(st(s1, [self.input(n, 0, 2), self.input(n, 0, 1)], [], lb=lb, branch_aus=ms({2: 3}), **kw))
        except (Undef, KeyError):
            raise
        return out

    def strata(self, s):
        lb = self.lin(s)
        mt = dict(self.mem(s).f_buffer.f_map.d)
        w = []
        try:
            for x in s.f_wip_branches:
                if x.f_branch._variant == "None":
                    w.append("none")
                    continue
                d = self.bmap(x.f_branch.f_0.f_disk_view.f_entries.d, x.f_branch.f_0.f_root)
                w.append((x.f_sealed, d == mt, self.ready_any(lb, s, [d])))
            return (tuple(w), bool(mt), len(s.f_compactors), self.lsize(lb))
        except (KeyError, IndexError, AttributeError, Undef):
            return "broken"

    def ready_any(self, lb, s, built):
        return any(self.ready(lb, x, built) for x in s.f_compactors)

    def expand(self, s):
        for l, st, p in super().expand(s):
            if len(p.f_wip_branches) > self.wips or len(p.f_compactors) > self.comps:
                continue
            yield l, st, p

    def starts(self, ins):
        import harness
        out = []
        for s in ins:
            v = self.view(s)
            x = {"map": v["map"], "end": v["end"], "held": v["held"]}
            if v["ok"] and x not in out:
                out.append(x)
        return "{" + ", ".join(harness.tla(x) for x in out) + "}"
