"""The B-epsilon tree family of the Rust design: paged, pivot and filtered trees (trees of nodes held in memory)."""
from rust import *

KINDS = {
    "paged": "betree::PagedBetree_v::PagedBetree",
    "pivot": "betree::PivotBetree_v::PivotBetree",
    "filtered": "betree::FilteredBetree_v::FilteredBetree",
}


class Betree:
    def __init__(self, kind, keys=3, vals=(1, 2), maxlsn=4, height=3, width=3, buffers=3, batch=2):
        self.kind, self.nk, self.maxlsn, self.height, self.width, self.buffers, self.batch = kind, keys, maxlsn, height, width, buffers, batch
        c = self.c = crate(["spec", "abstract_system", "betree", "disk"], natmax=maxlsn)
        self.mod = KINDS[kind].rsplit("::", 1)[0] + "::"
        self.base(vals)
        self.sm = c.sm(KINDS[kind])
        self.L = c.get(KINDS[kind] + "::Label").variants
        self.kinds()
        self.model = Model(c, self.sm, self.labels, self.hint)

    def base(self, vals):
        c, keys = self.c, self.nk
        K = c.get("spec::KeyType_t::Key").variants["Key"]
        self.keys = [K(i) for i in range(keys)]
        Val = self.Val = c.get("spec::Messages_t::Value").variants["Value"]
        Msg = self.Msg = c.get("spec::Messages_t::Message").variants
        Delta = c.get("spec::Messages_t::Delta").variants["Delta"]
        El = variants(c, "spec::KeyType_t::Element")
        self.Elem, self.Max = El["Elem"], El["Max"]()
        self.values = [Val(0)] + [Val(v) for v in vals]
        self.defs = {v: Msg["Define"](self.Val(v)) for v in [0] + list(vals)}
        self.upd = Msg["Update"](Delta(1))
        self.nop = Msg["Update"](Delta(0))
        c.univ["Key"] = self.keys
        c.univ["Value"] = self.values
        self.MH = variants(c, "abstract_system::MsgHistory_v::MsgHistory")["MsgHistory"]
        self.KMsg = variants(c, "abstract_system::MsgHistory_v::KeyedMessage")["KeyedMessage"]
        self.SB = variants(c, "betree::Buffer_v::SimpleBuffer")["SimpleBuffer"]
        self.Stamped = variants(c, "abstract_system::StampedMap_v::Stamped")["Stamped"]
        self.vals = vals

    def kinds(self):
        c, m = self.c, self.mod
        self.N = variants(c, m + "BetreeNode")
        self.QR = variants(c, m + "QueryReceipt")["QueryReceipt"]
        self.QRL = variants(c, m + "QueryReceiptLine")["QueryReceiptLine"]
        self.Path = variants(c, m + "Path")["Path"]
        self.nil = self.N["Nil"]()
        if self.kind == "paged":
            self.CM = variants(c, m + "ChildMap")["ChildMap"]
            ks = [FSet(self.keys[i] for i in range(self.nk) if b >> i & 1) for b in range(1 << self.nk)]
            self.keysets = ks
            c.univ["Set<Key>"] = ks
        else:
            self.PT = variants(c, "betree::PivotTable_v::PivotTable")["PivotTable"]
            self.SR = variants(c, "betree::SplitRequest_v::SplitRequest")
        if self.kind == "filtered":
            self.BS = variants(c, "betree::BufferSeq_v::BufferSeq")["BufferSeq"]
            self.BO = variants(c, "betree::BufferOffsets_v::BufferOffsets")["BufferOffsets"]

    # ---- reading the tree (independently of the code's own functions)
    def elt(self, e):
        return 10 ** 9 if e._variant == "Max" else e.f_e

    def route(self, node, k):
        """Index of the child that holds k, or None."""
        p = [self.elt(x) for x in node.f_pivots.f_pivots]
        for i in range(len(p) - 1):
            if p[i] <= k < p[i + 1]:
                return i
        return None

    def bufs(self, node, k):
        """Messages for key k in a node, oldest first, that are still active at it."""
        key = self.keys[k]
        if self.kind == "filtered":
            r = self.route(node, k)
            bs = node.f_buffers.f_buffers[node.f_flushed.f_offsets[r]:]
        else:
            bs = [node.f_buffer]
        return [b.f_map.d[key] for b in bs if key in b.f_map.d]

    def descend(self, root, k):
        """Nodes from the root to the bottom (Nil) for key k, or None where the tree does not route it."""
        out = [root]
        while root._variant != "Nil":
            if self.kind == "paged":
                ch = root.f_children.f_map.d.get(self.keys[k])
            else:
                r = self.route(root, k)
                ch = root.f_children[r] if r is not None and r < len(root.f_children) else None
            if ch is None or len(out) > 20:
                return None
            root = ch
            out.append(root)
        return out

    def value(self, msgs):
        """Value after applying messages, oldest first, to the default."""
        v = 0
        for m in msgs:
            if m._variant == "Define":
                v = m.f_value.f_0
        return v

    def tree_map(self, root, mem=None):
        out = []
        for k in range(self.nk):
            ns = self.descend(root, k)
            if ns is None:
                return None
            ms = []
            for n in reversed(ns[:-1]):
                ms += self.bufs(n, k)
            if mem is not None and self.keys[k] in mem.f_map.d:
                ms.append(mem.f_map.d[self.keys[k]])
            out.append(self.value(ms))
        return out

    def root(self, s):
        return s.f_root

    def view(self, s, edges=None, g=None):
        try:
            m = self.tree_map(self.root(s), s.f_memtable.f_buffer)
        except (Undef, IndexError, KeyError):
            m = None
        if m is None:
            return {"ok": False, "map": [], "end": 0, "expanded": False, "answers": [], "drained": False, "frozen": False, "accepts": False, "full": True, "flushable": False, "bounded": True}
        end = s.f_memtable.f_seq_end
        v = {"ok": True, "map": m, "end": end, "expanded": edges is not None, "answers": [[] for _ in range(self.nk)],
             "drained": not s.f_memtable.f_buffer.f_map.d, "frozen": False, "accepts": False, "full": end >= self.maxlsn,
             "flushable": False, "bounded": self.kind == "filtered" and s.f_root._variant == "Node" and len(s.f_root.f_buffers.f_buffers) >= self.buffers}
        for l, st, j in edges or ():
            n = l._variant
            if n == "Query" and l.f_end_lsn == end:
                a = v["answers"][l.f_key.f_0]
                if l.f_value.f_0 not in a:
                    a.append(l.f_value.f_0)
                    a.sort()
            elif n == "FreezeAs":
                v["frozen"] = True
            elif n == "Put":
                v["accepts"] = True
            elif n == "Internal" and self.flushes(g, j):
                v["flushable"] = True
        return v

    def mem(self, s):
        return s.f_memtable

    def flushes(self, g, j):
        return g is not None and not self.mem(g.states[j]).f_buffer.f_map.d

    # ---- labels
    def puts(self, h):
        out = []
        for i in range(h.f_seq_start, h.f_seq_end):
            km = h.f_msgs.d[i]
            k, m = km.f_key.f_0, km.f_message
            out.append({"kind": "def", "k": k, "v": m.f_value.f_0} if m._variant == "Define" else {"kind": "upd", "k": k, "v": 0})
        return out

    def image_map(self, st):
        return self.tree_map(st)

    def label(self, l):
        n = l._variant
        if n == "Query":
            return {"op": "query", "lsn": l.f_end_lsn, "k": l.f_key.f_0, "v": l.f_value.f_0}
        if n == "Put":
            return {"op": "put", "start": l.f_puts.f_seq_start, "puts": self.puts(l.f_puts)}
        if n == "FreezeAs":
            sb = l.f_stamped_betree
            m = self.image_map(sb.f_value)
            return {"op": "freeze", "ok": m is not None, "map": m or [], "lsn": sb.f_seq_end}
        return {"op": "tau"}

    def mk(self, start, kms):
        return self.MH(FMap((start + i, self.KMsg(k, m)) for i, (k, m) in enumerate(kms)), start, start + len(kms))

    def frozen(self, s):
        return s.f_root

    def labels(self, s):
        L, end = self.L, s.f_memtable.f_seq_end
        out = [L["Internal"]()]
        out += [L["Query"](e, k, v) for k in self.keys for v in self.values for e in ((end,) if k is not self.keys[0] else {end, max(end - 1, 0)})]
        D = self.defs
        v = list(self.vals)
        if end < self.maxlsn:
            out += [L["Put"](self.mk(end, [(k, m)])) for k in self.keys for m in [D[x] for x in v] + [self.upd]]
        if self.batch > 1 and end + 2 <= self.maxlsn:
            k = self.keys
            for a, b in [((k[0], D[v[0]]), (k[0], D[v[-1]])), ((k[0], D[v[0]]), (k[0], self.upd)), ((k[1], self.upd), (k[1], D[v[0]])), ((k[0], D[v[-1]]), (k[1], D[v[0]]))]:
                out.append(L["Put"](self.mk(end, [a, b])))
            out.append(L["Put"](self.mk(end + 1, [(k[0], D[v[0]])])))
        for e in {end, max(end - 1, 0)}:
            for r in self.frozen_cands(s):
                out.append(L["FreezeAs"](self.Stamped(r, e)))
        return out

    def frozen_cands(self, s):
        return [s.f_root]

    # ---- parameters
    def paths(self, root):
        """Distinct paths: every node reached by some key, with a representative key."""
        out, seen = [], set()
        for k in range(self.nk):
            ns = self.descend(root, k) or []
            for d, n in enumerate(ns):
                if n._variant == "Nil":
                    break
                ident = (d, tuple(self.prefix(ns, d)))
                if ident not in seen:
                    seen.add(ident)
                    out.append((self.keys[k], d, n))
        return out

    def prefix(self, ns, d):
        return [id(x) for x in ns[:d + 1]]

    def receipts(self, s, key):
        root = self.root(s)
        ns = self.descend(root, key.f_0)
        if ns is None:
            return []
        # correct results, and results of plausible wrong ways to combine them
        out = []
        combos = [lambda below, own: self.value([self.Msg["Define"](self.Val(below))] + own),
                  lambda below, own: below,
                  lambda below, own: self.value(own[:1] + [self.Msg["Define"](self.Val(below))]) if below else self.value(own),
                  lambda below, own: self.value(own)]
        for f in combos:
            res, v = [], 0
            for i, n in enumerate(reversed(ns)):
                if i:
                    v = f(v, self.bufs(n, key.f_0))
                res.append(v)
            res.reverse()
            r = self.mkreceipt(key, root, ns, [self.Msg["Define"](self.Val(x)) for x in res])
            if r not in out:
                out.append(r)
        return out

    def mkreceipt(self, key, root, ns, res):
        return self.QR(key, root, Seq(self.QRL(n, m) for n, m in zip(ns, res)))

    def hint(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if pre is None:
            if tn == "Stamped" or tn == "StampedBetree" or p == "stamped_betree":
                return [self.Stamped(r, e) for r, e in self.images()]
            return None
        if tn == "Set" and p in ("left_keys", "right_keys", "down_keys"):
            return self.keysets
        if tn == "QueryReceipt":
            return self.receipts(pre, get("lbl").f_key)
        if tn == "Path":
            return self.path_cands(pre, t)
        if tn == "SplitRequest":
            x = get("path")
            return self.requests(self.target(x))
        if tn == "nat" and p in ("child_idx", "buffer_gc", "start", "end"):
            return range(0, self.width + 2)
        if tn == "SimpleBuffer" and t == "internal_compact":
            return self.compactions(self.target(get("path")), get("start"), get("end"))
        return None

    def target(self, path):
        n = path.f_node
        for _ in range(path.f_depth):
            n = n.f_children[self.route(n, path.f_key.f_0)]
        return n

    def path_cands(self, s, t):
        out = []
        for k, d, n in self.paths(s.f_root):
            if self.kind == "paged":
                ns = self.descend(s.f_root, k.f_0)
                # routing sets: all keys that share the child at each level
                def same(n, ch):
                    return FSet(x for x in self.keys if n.f_children.f_map.d[x] == ch)
                full = Seq(same(ns[i], ns[i + 1]) for i in range(d))
                cands = [full]
                if d:
                    cands.append(Seq([FSet([k])]) + full[1:])
                    cands.append(Seq([FSet(self.keys)]) + full[1:])
                out += [self.Path(s.f_root, k, r) for r in cands]
            else:
                out.append(self.Path(s.f_root, k, d))
        return out

    def requests(self, node):
        out = []
        for i, ch in enumerate(node.f_children):
            out += [self.SR["SplitLeaf"](i, k) for k in self.keys]
            if ch._variant == "Node":
                out += [self.SR["SplitIndex"](i, j) for j in range(0, len(ch.f_children) + 1)]
        return out

    def compactions(self, node, start, end):
        """The right outcome of merging the buffers start..end of a node, and some wrong ones."""
        bs = node.f_buffers.f_buffers
        if not start < end <= len(bs):
            return []
        good, every, first = {}, {}, {}
        for k in range(self.nk):
            r = self.route(node, k)
            f = node.f_flushed.f_offsets[r] if r is not None else len(bs)
            key = self.keys[k]
            allm = [bs[i].f_map.d[key] for i in range(start, end) if key in bs[i].f_map.d]
            ms = [bs[i].f_map.d[key] for i in range(max(start, f), end) if key in bs[i].f_map.d] if r is not None else []
            if ms:
                good[key] = self.combine(ms)
                first[key] = ms[0]
            if allm:
                every[key] = self.combine(allm)
        out = [FMap(good), FMap(every), FMap(first), FMap()]
        if good:
            k0 = sorted(good, key=lambda k: k.f_0)[0]
            out.append(FMap((k, v) for k, v in good.items() if k != k0))
        u = []
        for x in out:
            b = self.SB(x)
            if b not in u:
                u.append(b)
        return u

    def combine(self, ms):
        out = None
        for m in ms:
            if out is None or m._variant == "Define":
                out = m
            elif out._variant == "Update" and m != self.nop:
                out = m
        return out

    # ---- images to open
    def buf(self, d):
        return self.SB(FMap((self.keys[k], m) for k, m in d.items()))

    def piv(self, *ks):
        return self.PT(Seq(self.Elem(k) if k is not None else self.Max for k in ks))

    def images(self):
        D, u, v = self.defs, self.upd, list(self.vals)
        nil, N = self.nil, self.N["Node"]
        out = [(nil, 0)]
        a, b = v[0], v[-1]
        if self.kind == "paged":
            cm = lambda f: self.CM(FMap((k, f(k.f_0)) for k in self.keys))
            lo = N(self.buf({0: D[a]}), cm(lambda k: nil))
            hi = N(self.buf({1: D[b], self.nk - 1: u}), cm(lambda k: nil))
            out.append((N(self.buf({1: u}), cm(lambda k: lo if k < 1 else hi)), 1))
            out.append((N(self.buf({0: D[b], 1: D[a]}), cm(lambda k: nil)), 1))
            return out
        if self.kind == "pivot":
            leaf = lambda d, *p: N(self.buf(d), self.piv(*p), Seq([nil]))
            lo, hi = leaf({0: D[a]}, 0, 1), leaf({1: D[b], self.nk - 1: u}, 1, None)
            out.append((N(self.buf({1: u, 0: D[b]}), self.piv(0, 1, None), Seq([lo, hi])), 1))
            out.append((leaf({0: D[b], 1: D[a]}, 0, None), 1))
            idx = N(self.buf({self.nk - 1: D[b]}), self.piv(0, 1, None), Seq([lo, hi]))
            out.append((N(self.buf({1: D[a]}), self.piv(0, None), Seq([idx])), 1))
            return out
        leaf = lambda ds, *p: N(self.BS(Seq(self.buf(d) for d in ds)), self.piv(*p), Seq([nil]), self.BO(Seq([0])))
        lo, hi = leaf([{0: D[a]}], 0, 1), leaf([{1: D[b]}, {self.nk - 1: u, 0: D[b]}], 1, None)
        out.append((N(self.BS(Seq([self.buf({0: D[b], 1: D[a]}), self.buf({1: D[b]})])), self.piv(0, 1, None), Seq([lo, hi]), self.BO(Seq([1, 0]))), 1))
        out.append((leaf([{0: D[b], 1: D[a]}, {0: u}], 0, None), 1))
        idx = N(self.BS(Seq([self.buf({0: D[a], 1: D[b]}), self.buf({self.nk - 1: D[b], 0: D[a]})])), self.piv(0, 1, None), Seq([lo, hi]), self.BO(Seq([2, 1])))
        out.append((N(self.BS(Seq([self.buf({1: D[a]})])), self.piv(0, None), Seq([idx]), self.BO(Seq([0]))), 1))
        return out

    # ---- keeping exploration finite
    def size(self, n, d=0):
        if n._variant == "Nil":
            return d
        ch = list(set(n.f_children.f_map.d.values())) if self.kind == "paged" else n.f_children
        if self.kind != "paged" and len(ch) > self.width or self.kind == "filtered" and len(n.f_buffers.f_buffers) > self.buffers:
            return 99
        return max([self.size(x, d + 1) for x in ch] or [d])

    def expand(self, s):
        for l, st, p in self.model.expand(s):
            try:
                if p != s and self.size(self.root(p)) > self.height:
                    continue
            except (AttributeError, Undef):
                pass
            yield l, st, p

    def starts(self, ins):
        import harness
        out = []
        for s in ins:
            v = self.view(s)
            x = {"map": v["map"], "end": v["end"]}
            if v["ok"] and x not in out:
                out.append(x)
        return "{" + ", ".join(harness.tla(x) for x in out) + "}"
