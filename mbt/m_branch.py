"""B+tree branches of the Rust design: trees of nodes in memory, linked nodes on disk, and branches being built from allocation units."""
from itertools import combinations
from rust import *
from m_betree import Betree
from m_journal import toposort
import verus_eval


class Branches:
    """kind: pivot | linked | alloc"""

    def __init__(self, kind, keys=4, height=3, width=3, aus=3, pages=2, nodes=6):
        self.kind, self.nk, self.height, self.width, self.nodes = kind, keys, height, width, nodes
        c = self.c = crate(["spec", "abstract_system", "betree", "disk", "allocation_layer"], natmax=6)
        c.overrides["page_count"] = lambda: pages
        c.overrides["au_count"] = lambda: aus
        g = lambda p: variants(c, p)
        self.keys = [g("spec::KeyType_t::Key")["Key"](i) for i in range(keys)]
        c.univ["Key"] = self.keys
        Val = g("spec::Messages_t::Value")["Value"]
        self.Msg = g("spec::Messages_t::Message")
        Delta = g("spec::Messages_t::Delta")["Delta"]
        self.msgs = {"d1": self.Msg["Define"](Val(1)), "d2": self.Msg["Define"](Val(2)), "u1": self.Msg["Update"](Delta(1))}
        self.names = {v: k for k, v in self.msgs.items()}
        self.nop = self.Msg["Update"](Delta(0))
        self.Some, self.NoneV = c.Option.variants["Some"], c.Option.variants["None"]()
        A = g("spec::AsyncDisk_t::Address")["Address"]
        self.addrs = [A(a, p) for a in range(aus) for p in range(pages)]
        c.univ["Address"] = self.addrs
        c.univ["AU"] = list(range(aus))
        self.aus = aus
        c.call_gens["valid_ranking"] = self.rankings
        if kind == "pivot":
            self.P = "betree::PivotBranch_v::"
            self.Node = g(self.P + "Node")
            self.nodecls = c.get(self.P + "Node")
        else:
            self.P = "betree::LinkedBranch_v::"
            self.Node = g(self.P + "Node")
            self.DV = g(self.P + "DiskView")["DiskView"]
            self.LB = g(self.P + "LinkedBranch")["LinkedBranch"]
            self.nodecls = c.get(self.P + "LinkedBranch")
        self.Path = g(self.P + "Path")["Path"]
        self.SA = g(self.P + "SplitArg")
        if kind == "alloc":
            self.AP = "allocation_layer::AllocationBranch_v::"
            self.AB = g(self.AP + "AllocationBranch")["AllocationBranch"]
            self.abcls = c.get(self.AP + "AllocationBranch")
        self.skipped = {}

    def rankings(self, recv, args, idx, want):
        dv = recv.f_disk_view if "f_disk_view" in recv._slots else recv
        if "f_entries" not in dv._slots:
            return None
        ch = {}
        for a, n in dv.f_entries.d.items():
            if n._variant == "Index":
                ch[a] = [x for x in n.f_children if x in dv.f_entries.d]
            else:
                ch[a] = []
        r = toposort(ch)
        return [] if r is None else [FMap(r)]

    # ---- calling the code
    def m(self, name, recv, *a, cls=None):
        return self.c.fn((cls or self.nodecls).fns[name])(recv, *a)

    def path(self, name, p):
        return self.c.fn(self.c.get(self.P + "Path").fns[name])(p)

    # ---- reading trees, independently of the code's functions
    def tree(self, s):
        return s.f_branch.f_0 if self.kind == "alloc" and s.f_branch._variant == "Some" else None if self.kind == "alloc" else s

    def kids(self, t, n):
        return n.f_children

    def node(self, t, p):
        if self.kind == "pivot":
            return p
        return t.f_disk_view.f_entries.d[p]

    def rootp(self, t):
        return t if self.kind == "pivot" else t.f_root

    def descend(self, t, k):
        out, p = [], self.rootp(t)
        while True:
            n = self.node(t, p)
            out.append((p, n))
            if len(out) > 12:
                return None
            if n._variant != "Index":
                return out if n._variant == "Leaf" else None
            i = sum(1 for x in n.f_pivots if x.f_0 <= k)
            if i >= len(n.f_children):
                return None
            p = n.f_children[i]

    def lookup(self, t, k):
        d = self.descend(t, k)
        if d is None:
            return None
        n = d[-1][1]
        for i, x in enumerate(n.f_keys):
            if x.f_0 == k:
                return self.names.get(n.f_msgs[i], "?")
        return "-"

    def scan(self, t):
        """(every leaf sorted, keys and pivots within the bounds given from above, all nodes distinct and with enough entries, page list)."""
        ok, pages = [True], []

        def go(p, lo, hi, d):
            if d > 10:
                ok[0] = False
                return
            n = self.node(t, p)
            if self.kind != "pivot":
                pages.append(p)
            ks = [x.f_0 for x in (n.f_keys if n._variant == "Leaf" else n.f_pivots)]
            if any(a >= b for a, b in zip(ks, ks[1:])) or any(not lo <= x < hi for x in ks):
                ok[0] = False
            if n._variant == "Leaf":
                if not ks or len(ks) != len(n.f_msgs):
                    ok[0] = False
            else:
                if len(n.f_children) != len(ks) + 1:
                    ok[0] = False
                    return
                b = [lo] + ks + [hi]
                for i, x in enumerate(n.f_children):
                    go(x, b[i], b[i + 1], d + 1)
        go(self.rootp(t), -1, 10 ** 9, 0)
        return ok[0], pages

    def depth(self, t):
        d, p = 1, self.rootp(t)
        while d < 12:
            n = self.node(t, p)
            if n._variant != "Index" or not n.f_children:
                return d
            p = n.f_children[0]
            d += 1
        return d

    def image(self, t):
        if self.kind == "pivot":
            b = self.m("i", t)
        elif self.kind == "linked":
            b = self.m("i", self.m("i", t), cls=self.c.get("betree::PivotBranch_v::Node"))
        else:
            n = self.node(t, t.f_root)
            b = self.m("i", self.m("i", t), cls=self.c.get("betree::PivotBranch_v::Node"))
        d = b.f_map.d
        return [self.names.get(d[k], "?") if k in d else "-" for k in self.keys]

    def view(self, s, edges=None):
        v = {"ok": False, "map": [], "answers": [], "sorted": True, "own": True, "imaged": False, "image": [], "expanded": edges is not None, "insertable": True,
             "alloc": self.kind == "alloc", "units": [], "sealed": False, "pages": [], "summary": [], "built": False, "room": False, "sealable": False}
        if self.kind == "alloc":
            v["units"] = sorted(s.f_mini_allocator.f_allocs.d)
            v["sealed"] = s.f_sealed
        t = self.tree(s)
        if t is None:
            v.update(ok=True, map=["-"] * self.nk, answers=["-"] * self.nk)
            return v
        v["built"] = True
        try:
            v["map"] = [self.lookup(t, k) for k in range(self.nk)]
            v["sorted"], pages = self.scan(t)
        except (KeyError, IndexError, AttributeError, Undef):
            v["map"] = []
            return v
        if None in v["map"]:
            v["map"] = []
            return v
        v["ok"] = True
        try:
            ans = [self.m("query", t, k) for k in self.keys]
            v["answers"] = [self.names.get(a, "-" if a == self.nop else "?") for a in ans]
        except Undef:
            v["answers"] = ["?"]
        try:
            v["image"] = self.image(t)
            v["imaged"] = True
        except (Missing, Unbound) as e:
            self.skipped["image"] = str(e)[:150]
        except Undef:
            v["imaged"] = True
        if self.kind != "pivot":
            held = list(t.f_disk_view.f_entries.d)
            aux = []
            root = self.node(t, t.f_root)
            if self.kind == "alloc" and s.f_sealed and root._variant == "Index" and root.f_aux_ptr._variant == "Some":
                a = root.f_aux_ptr.f_0
                n = t.f_disk_view.f_entries.d.get(a)
                v["summary"] = sorted(n.f_0) if n is not None and n._variant == "Auxiliary" else [-1]
                aux = [a]
            elif self.kind == "alloc" and s.f_sealed:
                v["summary"] = [t.f_root.f_au] if root._variant == "Leaf" else [-1]
            v["own"] = len(set(pages)) == len(pages) and set(held) == set(pages + aux) and len(held) == len(pages + aux)
            if self.kind == "alloc":
                v["pages"] = sorted({a.f_au for a in pages + aux})
                res = {a for p in s.f_mini_allocator.f_allocs.d.values() for a in p.f_reserved}
                v["own"] = v["own"] and res == set(held)
                used = {a.f_au for a in pages}
                v["room"] = root._variant == "Leaf" or any(a.f_au in used and a not in res for a in self.addrs)
        if edges is not None:
            if self.kind != "alloc":
                got = {l["ks"][0] for l, _, _ in edges if l["op"] == "insert"}
                v["insertable"] = got == set(range(self.nk))
            v["sealable"] = any(l["op"] == "seal" for l, _, _ in edges)
        return v

    # ---- steps
    def paths(self, t, key):
        return [self.Path(t, self.keys[key], d) for d in range(self.height + 1)]

    def runs(self):
        ms = list(self.msgs)
        for n in (1, 2):
            for c in combinations(range(self.nk), n):
                yield list(c), [ms[(c[0] + i) % 3] for i in range(n)]

    def fresh(self, t):
        return [a for a in self.addrs if a not in t.f_disk_view.f_entries.d]

    def splitargs(self, t):
        out = [self.SA["SplitLeaf"](k) for k in self.keys]
        for k in self.keys:
            out += [self.SA["SplitIndex"](k, i) for i in range(self.width)]
        return out

    def guarded(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Undef:
            return None

    def target(self, p):
        try:
            return self.path("target", p) if self.path("valid", p) else None
        except Undef:
            return None

    def expand(self, s):
        for l, st, p in self.steps(s):
            t = self.tree(p)
            try:
                if t is not None and self.depth(t) > self.height:
                    continue
                if t is not None and self.kind != "pivot" and len(t.f_disk_view.f_entries.d) > self.nodes:
                    continue
            except (KeyError, IndexError, AttributeError):
                pass
            yield l, st, p

    def steps(self, s):
        return {"pivot": self.pivot_steps, "linked": self.linked_steps, "alloc": self.alloc_steps}[self.kind](s)

    def pivot_steps(self, t):
        for k in range(self.nk):
            for p in self.paths(t, k):
                g = self.target(p)
                if g is None or g._variant != "Leaf":
                    continue
                for n in ("d1", "d2"):
                    r = self.guarded(self.m, "insert", t, self.keys[k], self.msgs[n], p)
                    if r is not None:
                        yield {"op": "insert", "ks": [k], "ms": [n]}, "insert", r
        for ks, ms in self.runs():
            K, M = Seq(self.keys[k] for k in ks), Seq(self.msgs[x] for x in ms)
            for p in self.paths(t, ks[0]):
                g = self.target(p)
                if g is None or g._variant != "Leaf" or not g.f_keys or max(x.f_0 for x in g.f_keys) >= ks[0]:
                    continue
                if not self.guarded(self.c.fn(self.c.get(self.P + "Path").fns["path_equiv"]), p, self.keys[ks[-1]]):
                    continue
                r = self.guarded(self.m, "append", t, K, M, p)
                if r is not None:
                    yield {"op": "append", "ks": ks, "ms": ms}, "append", r
        r = self.guarded(self.m, "grow", t)
        if r is not None:
            yield {"op": "reshape"}, "grow", r
        for sa in self.splitargs(t):
            for p in self.paths(t, sa.f_pivot.f_0):
                g = self.target(p)
                if g is None or not self.guarded(self.m, "can_split_child_of_index", g, sa):
                    continue
                r = self.guarded(self.m, "split", t, p, sa)
                if r is not None:
                    yield {"op": "reshape"}, "split", r

    def linked_steps(self, t):
        for k in range(self.nk):
            for p in self.paths(t, k):
                for n in ("d1", "d2"):
                    if self.guarded(self.m, "can_insert", t, self.keys[k], self.msgs[n], p):
                        r = self.guarded(self.m, "insert", t, self.keys[k], self.msgs[n], p)
                        if r is not None:
                            yield {"op": "insert", "ks": [k], "ms": [n]}, "insert", r
        for ks, ms in self.runs():
            K, M = Seq(self.keys[k] for k in ks), Seq(self.msgs[x] for x in ms)
            for p in self.paths(t, ks[0]) + self.paths(t, ks[-1]):
                if self.guarded(self.m, "can_append", t, K, M, p):
                    r = self.guarded(self.m, "append", t, K, M, p)
                    if r is not None:
                        yield {"op": "append", "ks": ks, "ms": ms}, "append", r
        used = sorted(t.f_disk_view.f_entries.d, key=repr)
        for a in self.fresh(t)[:1] + used[:1] + used[-1:]:
            if self.guarded(self.m, "can_grow", t, a):
                r = self.guarded(self.m, "grow", t, a)
                if r is not None:
                    yield {"op": "reshape"}, "grow", r
        for sa in self.splitargs(t):
            for p in self.paths(t, sa.f_pivot.f_0):
                for a in self.fresh(t)[:1] + used[:1] + used[-1:]:
                    if self.guarded(self.m, "can_split", t, a, p, sa):
                        r = self.guarded(self.m, "split", t, a, p, sa)
                        if r is not None:
                            yield {"op": "reshape"}, "split", r

    def alloc_steps(self, s):
        m = lambda n, *a: self.guarded(self.m, n, s, *a, cls=self.abcls)
        held = sorted(s.f_mini_allocator.f_allocs.d)
        for au in range(self.aus):
            x = FSet([au])
            if m("can_fill", x):
                yield {"op": "fill", "units": [au]}, "fill", m("mini_allocator_fill", x)
        t = self.tree(s)
        for n in (1, 2, 3):
            for ks in combinations(range(self.nk), n):
                ms = [list(self.msgs)[(ks[0] + i) % 3] for i in range(n)]
                K, M = Seq(self.keys[k] for k in ks), Seq(self.msgs[x] for x in ms)
                for a in self.addrs:
                    if t is None and m("can_initialize", a, K, M):
                        yield {"op": "append", "ks": list(ks), "ms": ms}, "initialize", m("branch_initialize", a, K, M)
                if t is not None and n <= 2:
                    for p in self.paths(t, ks[0]) + self.paths(t, ks[-1]):
                        if m("can_append", K, M, p):
                            yield {"op": "append", "ks": list(ks), "ms": ms}, "append", m("branch_append", K, M, p)
        if t is None:
            return
        for sa in self.splitargs(t):
            for p in self.paths(t, sa.f_pivot.f_0):
                for a in self.addrs:
                    if m("can_split", a, p, sa):
                        yield {"op": "reshape"}, "split", m("branch_split", a, p, sa)
        for n in range(len(held) + 1):
            for back in combinations(held, n):
                for ptr in [self.NoneV] + [self.Some(a) for a in self.addrs]:
                    if m("can_seal", ptr, FSet(back)):
                        yield {"op": "seal", "units": list(back)}, "seal", m("branch_seal", ptr, FSet(back))

    # ---- starts
    def leaf(self, d):
        return self.Node["Leaf"](Seq(self.keys[k] for k in sorted(d)), Seq(self.msgs[d[k]] for k in sorted(d)))

    def roots(self):
        L, ms = self.leaf, list(self.msgs)
        z = self.nk - 1
        if self.kind == "pivot":
            I = lambda pv, ch: self.Node["Index"](Seq(self.keys[k] for k in pv), Seq(ch))
            return [L({0: "d1"}), L({1: "d1", z: "u1"}), L({k: ms[k % 3] for k in range(self.nk)}), I([2], [L({0: "d1", 1: "d2"}), L({2: "d1", z: "u1"})]),
                    I([2], [I([], [L({1: "d1"})]), I([z], [L({2: "u1"}), L({z: "d2"})])])]
        if self.kind == "linked":
            A = self.addrs
            I = lambda pv, ch: self.Node["Index"](Seq(self.keys[k] for k in pv), Seq(A[x] for x in ch), self.NoneV)
            mk = lambda r, d: self.LB(A[r], self.DV(FMap((A[i], n) for i, n in d.items())))
            return [mk(0, {0: L({0: "d1"})}), mk(1, {1: L({k: ms[k % 3] for k in range(self.nk)})}), mk(0, {0: I([2], [1, 2]), 1: L({0: "d1", 1: "d2"}), 2: L({2: "d1", z: "u1"})}),
                    mk(0, {0: I([2], [1, 2]), 1: I([], [3]), 2: I([z], [4, 5]), 3: L({1: "d1"}), 4: L({2: "u1"}), 5: L({z: "d2"})})]
        out = [self.m("new", FSet(x), cls=self.abcls) for x in ([0], [0, 1])]
        PA = variants(self.c, "allocation_layer::MiniAllocator_v::PageAllocator")["PageAllocator"]
        MA = variants(self.c, "allocation_layer::MiniAllocator_v::MiniAllocator")["MiniAllocator"]
        A = self.addrs
        I = lambda pv, ch: self.Node["Index"](Seq(self.keys[k] for k in pv), Seq(A[x] for x in ch), self.NoneV)

        def mk(r, d, units):
            lb = self.LB(A[r], self.DV(FMap((A[i], n) for i, n in d.items())))
            pa = lambda u: PA(**{"f_" + f: v for f, v in {}.items()}) if False else self.pa(PA, u, [A[i] for i in d if A[i].f_au == u])
            return self.AB(False, self.Some(lb), MA(FMap((u, pa(u)) for u in units), self.NoneV))
        out += [mk(2, {2: I([2], [0, 1]), 0: L({0: "d1", 1: "d2"}), 1: L({2: "d1"})}, [0, 1, 2]),
                mk(0, {0: I([2], [1, 2]), 1: L({0: "d1", 1: "d2"}), 2: I([z], [3, 4]), 3: L({2: "d1"}), 4: L({z: "u1"})}, [0, 1, 2])]
        return out

    def pa(self, PA, u, res):
        d = {"observed": FSet([]), "reserved": FSet(res), "au": u}
        return PA(*[d[x[2:]] for x in PA._slots])

    def starts(self, roots):
        out = []
        for s in roots:
            t = self.tree(s)
            x = {"map": [self.lookup(t, k) for k in range(self.nk)] if t is not None else ["-"] * self.nk, "units": sorted(s.f_mini_allocator.f_allocs.d) if self.kind == "alloc" else [],
                 "sealed": False}
            if x not in out:
                out.append(x)
        from harness import tla
        return "{" + ", ".join(tla(x) for x in out) + "}"
