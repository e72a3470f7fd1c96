"""The disk-based B-epsilon trees of the Rust design: linked nodes and buffers, with reference counts (likes) and with
allocation units."""
from rust import *
from smexec import DEFER
from m_betree import Betree
from m_journal import toposort

LKINDS = {
    "linked": ("betree::LinkedBetree_v::LinkedBetreeVars", ["spec", "abstract_system", "betree", "disk"]),
    "likes": ("allocation_layer::LikesBetree_v::LikesBetree", ["spec", "abstract_system", "betree", "disk", "allocation_layer"]),
    "alloc": ("allocation_layer::AllocationBetree_v::AllocationBetree", ["spec", "abstract_system", "betree", "disk", "allocation_layer"]),
}
P = "betree::LinkedBetree_v::"


def has(x, f):
    return f in x._slots


def inner(l):
    return l.f_linked_lbl if has(l, "f_linked_lbl") else l


class Linked(Betree):
    def __init__(self, kind, keys=2, vals=(1, 2), maxlsn=3, height=2, width=3, buffers=3, batch=2, aus=7, pages=2):
        self.kind, self.nk, self.maxlsn, self.height, self.width, self.buffers, self.batch = kind, keys, maxlsn, height, width, buffers, batch
        name, dirs = LKINDS[kind]
        c = self.c = crate(dirs, natmax=maxlsn)
        c.overrides["page_count"] = lambda: pages
        c.overrides["au_count"] = lambda: aus
        self.base(vals)
        A = variants(c, "spec::AsyncDisk_t::Address")["Address"]
        self.addrs = [A(a, p) for a in range(aus) for p in range(pages)]
        c.univ["Address"] = self.addrs
        c.call_gens["valid_ranking"] = self.rankings
        g = lambda n: variants(c, P + n)[n]
        self.BN, self.DV, self.LB, self.QR, self.QRL, self.Path, self.TA, self.SA = map(g, ("BetreeNode", "DiskView", "LinkedBetree", "QueryReceipt", "QueryReceiptLine", "Path", "TwoAddrs", "SplitAddrs"))
        self.LS = variants(c, "betree::LinkedSeq_v::LinkedSeq")["LinkedSeq"]
        self.BD = variants(c, "betree::BufferDisk_v::BufferDisk")["BufferDisk"]
        self.BO = variants(c, "betree::BufferOffsets_v::BufferOffsets")["BufferOffsets"]
        self.PT = variants(c, "betree::PivotTable_v::PivotTable")["PivotTable"]
        self.SR = variants(c, "betree::SplitRequest_v::SplitRequest")
        self.Some, self.NoneV = c.Option.variants["Some"], c.Option.variants["None"]()
        self.Mem = variants(c, "betree::Memtable_v::Memtable")["Memtable"]
        self.sm = c.sm(name)
        self.lsm = c.sm(P + "LinkedBetreeVars")
        self.LL = c.get(P + "LinkedBetreeVars::Label").variants
        self.L = c.get(name + "::Label").variants
        self.model = Model(c, self.sm, self.labels, self.hint)

    # ---- reading trees
    def rankings(self, recv, args, idx, want):
        dv = recv.f_dv if has(recv, "f_dv") else recv
        if not has(dv, "f_entries"):
            return None
        ch = {}
        for a, n in dv.f_entries.d.items():
            if not has(n, "f_flushed"):
                return None
            ch[a] = [p.f_0 for p in n.f_children if p._variant == "Some"]
        r = toposort(ch)
        return [] if r is None else [FMap(r)]

    def lin(self, s):
        return s.f_linked if self.kind == "linked" or not has(s, "f_betree") else s.f_betree.f_linked

    def mem(self, s):
        return s.f_memtable if self.kind == "linked" or not has(s, "f_betree") else s.f_betree.f_memtable

    def lroute(self, lb, k):
        """Nodes (pointers) from the root down to an absent child for key k; None when broken."""
        out, p = [], lb.f_root
        while p._variant == "Some":
            out.append(p)
            if len(out) > 20:
                return None
            n = lb.f_dv.f_entries.d.get(p.f_0)
            if n is None:
                return None
            r = self.route(n, k)
            if r is None or r >= len(n.f_children):
                return None
            p = n.f_children[r]
        return out

    def lbufs(self, lb, n, k):
        """Messages for k active in a node, oldest first; KeyError when a buffer is missing."""
        r = self.route(n, k)
        out = []
        for a in n.f_buffers.f_addrs[n.f_flushed.f_offsets[r]:]:
            b = lb.f_buffer_dv.f_entries.d[a]
            m = self.bufget(lb, a, b, self.keys[k])
            if m is not None:
                out.append(m)
        return out

    def bufget(self, lb, a, b, key):
        return b.f_map.d.get(key)

    def lmap(self, lb, mem=None):
        out = []
        for k in range(self.nk):
            ns = self.lroute(lb, k)
            if ns is None:
                return None
            ms = []
            for p in reversed(ns):
                ms += self.lbufs(lb, lb.f_dv.f_entries.d[p.f_0], k)
            if mem is not None and self.keys[k] in mem.f_map.d:
                ms.append(mem.f_map.d[self.keys[k]])
            out.append(self.value(ms))
        return out

    def tree_map(self, root, mem=None):
        try:
            return self.lmap(root, mem)
        except (Undef, KeyError, IndexError, AttributeError):
            return None         # a broken tree holds no map

    def root(self, s):
        return self.lin(s)

    def refs(self, lb):
        """How often each node and each buffer is referred to from the tree (a shared node counts once per reference)."""
        nodes, bufs = {}, {}

        def go(p, d):
            if p._variant == "None" or d > 20:
                return
            nodes[p.f_0] = nodes.get(p.f_0, 0) + 1
            n = lb.f_dv.f_entries.d[p.f_0]
            for b in n.f_buffers.f_addrs:
                bufs[b] = bufs.get(b, 0) + 1
            for x in n.f_children:
                go(x, d + 1)
        go(lb.f_root, 0)
        return nodes, bufs

    def aid(self, a):
        return a.f_au * 10 + a.f_page

    def count(self, d, au):
        out = {}
        for a, n in d.items():
            k = a if isinstance(a, int) else a.f_au if au else self.aid(a)
            out[k] = out.get(k, 0) + n
        return [[k, n] for k, n in sorted(out.items()) if n]

    def view(self, s, edges=None, g=None):
        v = {"ok": False, "map": [], "end": 0, "expanded": False, "answers": [], "drained": False, "frozen": False, "accepts": False, "full": True, "flushable": False, "bounded": True,
             "stored": True, "likes": [], "refs": []}
        lb, mt = self.lin(s), self.mem(s)
        try:
            m = self.lmap(lb, mt.f_buffer)
            nodes, bufs = self.refs(lb)
        except (Undef, IndexError, KeyError, AttributeError):
            m = None
        if m is None:
            return v
        end = mt.f_seq_end
        v.update(ok=True, map=m, end=end, expanded=edges is not None, answers=[[] for _ in range(self.nk)], drained=not mt.f_buffer.f_map.d, full=end >= self.maxlsn,
                 stored=all(a in lb.f_dv.f_entries.d for a in nodes) and all(a in lb.f_buffer_dv.f_entries.d for a in bufs))
        v["bounded"] = self.bounded(lb)
        self.counts(s, v, nodes, bufs)
        for l, st, j in edges or ():
            l = inner(l)
            n = l._variant
            if n == "Query" and l.f_end_lsn == end:
                a = v["answers"][l.f_key.f_0]
                if l.f_value.f_0 not in a:
                    a.append(l.f_value.f_0)
                    a.sort()
            elif n == "FreezeAs":
                v["frozen"] = True
            elif n == "Put":
                v["accepts"] = True
            elif n == "Internal" and self.flushes(g, j):
                v["flushable"] = True
        return v

    def counts(self, s, v, nodes, bufs):
        if self.kind == "likes":
            v["refs"] = [self.count(nodes, False), self.count(bufs, False)]
            v["likes"] = [self.count(s.f_betree_likes.d, False), self.count(s.f_buffer_likes.d, False)]
        elif self.kind == "alloc":
            v["refs"] = [self.count(nodes, True), self.count(bufs, True)]
            v["likes"] = [self.count(s.f_betree_aus.d, True), self.count(s.f_buffer_aus.d, True)]

    # ---- labels
    def label(self, l):
        return Betree.label(self, inner(l))

    def labels(self, s):
        t = self.mem(s)
        keep, self.L_ = self.L, self.L
        try:
            self.L = self.LL
            class S:
                f_memtable = t
                f_root = s
            out = Betree.labels(self, S)
        finally:
            self.L = keep
        if self.kind == "linked":
            return out
        return [self.L["Label"](x) for x in out]

    def frozen_cands(self, s):
        return [self.lin(s.f_root)]

    # ---- parameters
    def fresh(self, lb, n, skip=()):
        used = set(lb.f_dv.f_entries.d) | set(lb.f_buffer_dv.f_entries.d) | set(skip)
        return [a for a in self.addrs if a not in used][:n]

    def twos(self, lb, bad):
        f = self.fresh(lb, 3)
        out = [self.TA(f[0], f[1])] if len(f) > 1 else []
        if bad and self.kind != "linked" and f:
            u = sorted(set(lb.f_dv.f_entries.d) | set(lb.f_buffer_dv.f_entries.d), key=self.aid)
            out += [self.TA(a, f[0]) for a in u[:1] + u[-1:]] + [self.TA(f[0], a) for a in u[:1] + u[-1:]] + [self.TA(f[0], f[0])]
        return out

    def live(self, lb):
        """Variants of a tree that keep at least the given part of the two disks: [(nodes, buffers)]."""
        try:
            nodes, bufs = self.refs(lb)
        except (KeyError, Undef, AttributeError):
            return []
        nd, bd = lb.f_dv.f_entries.d, lb.f_buffer_dv.f_entries.d
        if self.kind == "alloc":
            na, ba = {a.f_au for a in nodes}, {a.f_au for a in bufs}
            nodes = [a for a in nd if a.f_au in na]
            bufs = [a for a in bd if a.f_au in ba]
        mk = lambda ns, bs: self.LB(lb.f_root, self.DV(FMap((a, n) for a, n in nd.items() if a in ns)), self.BD(FMap((a, b) for a, b in bd.items() if a in bs)))
        out = [mk(nodes, bufs)]
        if len(nd) + len(bd) <= self.spare:
            out.append(lb)
        if len(bd) <= 6:
            out.append(mk(nodes, bd))
        live = sorted((a for a in bd if a in bufs), key=self.aid)
        if live:        # a live buffer whose contents are lost
            g = out[0]
            out.append(self.LB(g.f_root, g.f_dv, self.BD(FMap((a, self.blank(b) if a == live[-1] else b) for a, b in g.f_buffer_dv.f_entries.d.items()))))
        if self.kind != "linked":
            o = lambda x: sorted(x, key=self.aid)
            out += [mk(o(nodes)[1:], bufs), mk(o(nodes)[:-1], bufs)] if nodes else []
            out += [mk(nodes, o(bufs)[1:]), mk(nodes, o(bufs)[:-1])] if bufs else []
        u = []
        for x in out:
            if x not in u:
                u.append(x)
        return u

    spare = 6

    def blank(self, b):
        return self.SB(FMap())

    def known(self, get, *ns):
        try:
            out = [get(n) for n in ns]
        except KeyError:
            return None
        from smexec import ground
        return out if all(ground(x) for x in out) else None

    def hint(self, c, sm, t, p, ty, pre, get):
        try:
            return self.hint1(c, sm, t, p, ty, pre, get)
        except (Undef, KeyError, IndexError, AttributeError):
            if pre is not None and self.whole(self.lin(pre)):
                raise
            return []           # a broken tree: its view says so

    def whole(self, lb):
        try:
            return self.lmap(lb) is not None and self.refs(lb) is not None
        except (Undef, KeyError, IndexError, AttributeError):
            return False

    def hint1(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if pre is None:
            if tn == "State" or p in ("v", "betree"):
                return self.image_states()
            return None
        lb = self.lin(pre)
        if p == "receipt" or tn == "QueryReceipt":
            l = get("lbl")
            return self.receipts(pre, inner(l).f_key)
        if p == "sealed_memtable":
            b = self.mem(pre).f_buffer
            return [b, self.SB(FMap())]
        if p == "new_root_addr":
            f = self.fresh(lb, 1)
            u = sorted(lb.f_dv.f_entries.d, key=self.aid) if self.kind != "linked" else []
            return f + u[:1]
        if tn == "Path":
            return self.path_cands(lb)
        if tn == "SplitRequest":
            x = self.known(get, "path")
            return DEFER if x is None else self.requests(lb, self.target(x[0]))
        if p in ("child_idx", "buffer_gc"):
            return range(0, self.width + 2)
        if p in ("start", "end"):
            return range(0, self.buffers + 2)
        if p == "new_addrs":
            if tn == "SplitAddrs":
                f = self.fresh(lb, 3)
                u = sorted(lb.f_dv.f_entries.d, key=self.aid) if self.kind != "linked" else []
                return ([self.SA(*f)] if len(f) == 3 else []) + ([self.SA(f[0], a, f[1]) for a in u[:1]] if len(f) > 1 else [])
            return self.twos(lb, True)
        if p == "path_addrs":
            x = self.known(get, "path")
            if x is None:
                return DEFER
            f = self.fresh(lb, 3 + x[0].f_depth)[3:]
            return [Seq(f)] if len(f) == x[0].f_depth else []
        if p == "compacted_buffer":
            x = self.known(get, "path", "start", "end")
            return DEFER if x is None else self.compactions(lb, self.target(x[0]), x[1], x[2])
        if tn == "LinkedBetree" or p in ("new_linked", "new_betree"):
            C = lambda f, *a: self.c.call(P + "LinkedBetreeVars::State::" + f, *a)
            if t == "internal_flush_memtable":
                x = self.known(get, "sealed_memtable", "new_addrs")
                if x is None:
                    return DEFER
                return self.live(self.push(lb, x[0], x[1]))
            if t == "internal_buffer_noop":
                return [x for x in self.live(lb)]
            need = {"internal_split": ("path", "request", "new_addrs", "path_addrs"), "internal_flush": ("path", "child_idx", "buffer_gc", "new_addrs", "path_addrs"),
                    "internal_compact": ("path", "start", "end", "compacted_buffer", "new_addrs", "path_addrs")}.get(t)
            if need is None:
                return None
            x = self.known(get, *need)
            if x is None:
                return DEFER
            try:
                r = C("post_" + t[9:], *x)
            except (Undef, KeyError, IndexError):
                return []
            return self.live(r)
        return None

    def push(self, lb, sealed, addrs):
        return self.c.fn(self.c.get(P + "LinkedBetree").fns["push_memtable"])(lb, sealed, addrs)

    def target(self, path):
        lb = path.f_linked
        p = lb.f_root
        for _ in range(path.f_depth):
            n = lb.f_dv.f_entries.d[p.f_0]
            p = n.f_children[self.route(n, path.f_key.f_0)]
        return lb.f_dv.f_entries.d[p.f_0]

    def path_cands(self, lb):
        out, seen = [], set()
        for k in range(self.nk):
            ns = self.lroute(lb, k) or []
            for d, p in enumerate(ns):
                if (d, p) not in seen:
                    seen.add((d, p))
                    out.append(self.Path(lb, self.keys[k], d))
        return out

    def requests(self, lb, node):
        out = []
        for i, ch in enumerate(node.f_children):
            out += [self.SR["SplitLeaf"](i, k) for k in self.keys]
            if ch._variant == "Some":
                out += [self.SR["SplitIndex"](i, j) for j in range(0, len(lb.f_dv.f_entries.d[ch.f_0].f_children) + 1)]
        return out

    def compactions(self, lb, node, start, end):
        if not start < end <= len(node.f_buffers.f_addrs):
            return []

        class N:
            class f_buffers:
                f_buffers = [lb.f_buffer_dv.f_entries.d[a] for a in node.f_buffers.f_addrs]
            f_flushed = node.f_flushed
            f_pivots = node.f_pivots
        return Betree.compactions(self, N, start, end)

    def receipts(self, s, key):
        lb = self.lin(s)
        ns = self.lroute(lb, key.f_0)
        if ns is None:
            return []
        nodes = [lb.f_dv.f_entries.d[p.f_0] for p in ns]
        try:
            for n in nodes:
                self.lbufs(lb, n, key.f_0)
        except (KeyError, IndexError, Undef):
            return []
        out = []
        combos = [lambda below, own: self.value([self.Msg["Define"](self.Val(below))] + own),
                  lambda below, own: below,
                  lambda below, own: self.value(own[:1] + [self.Msg["Define"](self.Val(below))]) if below else self.value(own),
                  lambda below, own: self.value(own)]
        for f in combos:
            res, v = [0], 0
            for n in reversed(nodes):
                v = f(v, self.lbufs(lb, n, key.f_0))
                res.append(v)
            res.reverse()
            lines = [self.QRL(self.LB(p, lb.f_dv, lb.f_buffer_dv), self.Msg["Define"](self.Val(x))) for p, x in zip(ns + [self.NoneV], res)]
            r = self.QR(key, lb, Seq(lines))
            if r not in out:
                out.append(r)
        return out

    # ---- images
    def image_states(self):
        return [self.lsm.state.variants["State"](*[{"memtable": self.Mem(self.SB(FMap()), e), "linked": lb}[f] for f in self.lsm.fields]) for lb, e in self.images()]

    def mklinked(self, root, nodes, bufs):
        A = self.addrs
        ptr = lambda i: self.NoneV if i is None else self.Some(A[i])
        nd = {A[i]: self.BN(self.LS(Seq(A[b] for b in bs)), self.piv(*pv), Seq(ptr(x) for x in ch), self.BO(Seq(fl))) for i, (bs, pv, ch, fl) in nodes.items()}
        return self.LB(ptr(root), self.DV(FMap(nd)), self.BD(FMap((A[i], self.buf(d)) for i, d in bufs.items())))

    def images(self):
        D, u, v = self.defs, self.upd, list(self.vals)
        a, b = v[0], v[-1]
        z = self.nk - 1
        out = [(self.mklinked(None, {}, {}), 0)]
        out.append((self.mklinked(0, {0: ([1, 2], (0, None), [None], [0])}, {1: {0: D[a], z: D[b]}, 2: {0: u}}), 1))
        # two leaves that share a buffer, below a root one of whose buffers was flushed to the left only
        out.append((self.mklinked(0, {0: ([1, 2], (0, 1, None), [3, 4], [1, 0]), 3: ([5, 1], (0, 1), [None], [0]), 4: ([5], (1, None), [None], [0])},
                                  {1: {0: D[b], z: D[a]}, 2: {z: u, 0: u}, 5: {0: D[a], z: D[b]}}), 1))
        return out

    def bounded(self, lb):
        """Is there no room (within the exploration's bounds) for another memtable in the root?"""
        if lb.f_root._variant == "None":
            return len(self.fresh(lb, 2)) < 2
        return len(lb.f_dv.f_entries.d[lb.f_root.f_0].f_buffers.f_addrs) >= self.buffers or len(self.fresh(lb, 2)) < 2

    # ---- keeping exploration finite
    def lsize(self, lb):
        d = 0
        for k in range(self.nk):
            ns = self.lroute(lb, k)
            if ns is None:
                return 0
            d = max(d, len(ns))
        for n in lb.f_dv.f_entries.d.values():
            if len(n.f_children) > self.width or len(n.f_buffers.f_addrs) > self.buffers:
                return 99
        return d

    def expand(self, s):
        for l, st, p in self.model.expand(s):
            try:
                if p != s and self.lsize(self.lin(p)) > self.height:
                    continue
            except (AttributeError, Undef, KeyError, IndexError):
                pass
            yield l, st, p
