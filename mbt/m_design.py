"""The designs behind VeriBetrKV's crash safety, written as Dafny predicates: the code's own Next(s, s', op) is solved for the
successors of a state (dsolve), and every behaviour must be one of SyncMap, the contract with the client."""
import dfy
import dsolve
import harness

KEYS = [(1,), (1, 5), (2,), (2, 5)]
VALUES = [(), (7,), (8,)]
SYNCS = [1, 2]


class Design:
    """a state machine Init(s), Next(s, s', op) whose op is a UI.Op"""
    files, next_, init_ = (), None, None
    values, puts, clones, syncs, changes = VALUES, VALUES[:2], [(1,), (2,)], SYNCS, 3

    def __init__(self, repo):
        self.prog = p = dfy.Program(repo, self.files, spec=True, univ={"Key": KEYS, "?k": KEYS, "?key": KEYS})
        if p.errors:
            raise harness.ToolError(f"not parsed: {p.errors[:3]}")
        self.next = self.fn(self.next_)
        self.solver = dsolve.Solver(p, self.hint)
        self.state = None
        self.ui = {n: p.get("UI." + n) for n in ("NoOp", "CrashOp", "PushSyncOp", "PopSyncOp", "GetOp", "PutOp", "CloneOp", "SuccOp", "SuccResult",
                                                 "SInclusive", "SExclusive", "NegativeInf", "EInclusive", "EExclusive", "PositiveInf")}
        u = self.ui
        for n, x in u.items():
            if isinstance(x, dfy.DT):
                u[n] = x.ctors[n]
        self.range0 = [u["NegativeInf"](), u["SInclusive"](KEYS[1]), u["SExclusive"](KEYS[0])]
        self.range1 = [u["PositiveInf"](), u["EInclusive"](KEYS[1]), u["EExclusive"](KEYS[3])]

    def fn(self, q):
        m, n = q.rsplit(".", 1)
        return self.prog.member(self.prog.mod(m), n)

    # -- candidates for what no equation determines
    def maps(self, s):
        """the maps from keys to values in a state (the views of the map's state machine)"""
        out = []

        def go(x):
            if isinstance(x, dfy.Data):
                for y in x.args_():
                    go(y)
            elif isinstance(x, dfy.DMap):
                if set(x) == set(KEYS):
                    if x not in out:
                        out.append(x)
                else:
                    for y in x.d.values():
                        go(y)
        go(s)
        return out

    def results(self):
        if self.res is None:
            self.res = self.results1()
        return self.res

    def results1(self):
        """answers to scans: the contents of each map in the state, and those with a pair missing, changed or added"""
        out = [()]
        for m in self.maps(self.state):
            full = tuple(self.ui["SuccResult"](k, m[k]) for k in KEYS if m[k] != ())
            for a in range(len(full) + 1):
                for b in range(a, len(full) + 1):
                    out.append(full[a:b])
            for i in range(len(full)):
                out.append(full[:i] + full[i + 1:])
            out.append(full[::-1])
            out.append(tuple(self.ui["SuccResult"](k, m[k]) for k in KEYS))
            out.append(tuple(self.ui["SuccResult"](k, (8,)) for k in KEYS if m[k] != ()))
        return list(dict.fromkeys(out))

    def hint(self, v):
        ty = v.ty
        if ty is None or ty[0] != "ty":
            return None
        n = ty[1][-1]
        if n == "Key":
            return self.clones if v.name in ("from", "to") else KEYS
        if n == "Value":
            return self.puts if v.name == "new_value" else self.values
        if n == "RangeStart":
            return self.range0
        if n == "RangeEnd":
            return self.range1
        if n == "seq" and ty[2] and ty[2][0][0] == "ty" and ty[2][0][1][-1] == "SuccResult":
            return self.results()
        if n in ("int", "nat", "SyncReqId") and v.name == "id":
            return self.syncs
        if n == "bool":
            return [False, True]
        return None

    def ops(self):
        u = self.ui
        out = [u["NoOp"](), u["CrashOp"]()]
        for i in self.syncs:
            out += [u["PushSyncOp"](i), u["PopSyncOp"](i)]
        for k in KEYS:
            out += [u["GetOp"](k, v) for v in self.values] + [u["PutOp"](k, v) for v in self.values]
        return out + [u["CloneOp"](a, b) for a in KEYS for b in KEYS]

    # -- exploration
    def inits(self):
        s = dsolve.LV("s", ("ty", [self.next_.rsplit(".", 1)[1] and "Variables"], []), self.next.mod)
        self.state = None
        out = []
        for sub in self.solver.solve(self.fn(self.init_), [s]):
            x = self.solver.deep(s, sub)
            if (0, x) not in out:
                out.append((0, x))
        return out

    def rest(self, terms, sub):
        """the ways to complete what the predicate leaves open"""
        vs = []
        for t in terms:
            self.solver.unknowns(t, sub, vs)
        if not vs:
            yield sub
            return
        h = self.hint(vs[0])
        if h is None:
            d = self.solver.typeof(vs[0])
            if d is None:
                raise harness.Missing(f"{vs[0]} of type {vs[0].ty} is left open")
            for k in d.ctors.values():
                yield from self.rest(terms, self.solver.struct(vs[0], k, sub))
            return
        for x in h:
            yield from self.rest(terms, {**sub, vs[0]: x})

    def expand(self, ns):
        """a node is a state and the number of changes made so far, which is bounded"""
        n, s = ns
        self.state, self.res = s, None
        vty = ("ty", ["Variables"], [])
        uty = ("ty", ["UI", "Op"], [])
        seen = set()
        s2, u = dsolve.LV("s2", vty, self.next.mod), dsolve.LV("op", uty, self.next.mod)
        for sub in self.solver.solve(self.next, [s, s2, u]):
            for sub in self.rest([s2, u], sub):
                t, l = self.solver.deep(s2, sub), self.solver.deep(u, sub)
                if (t, l) not in seen:
                    seen.add((t, l))
                    if l.tag not in ("PutOp", "CloneOp"):
                        yield l, "", (n, t)
                    elif n < self.changes:
                        yield l, "", (n + 1, t)

    # -- labels
    def label(self, l):
        n = l.tag
        val = lambda v: 0 if v == () else v[0] if len(v) == 1 else 99
        key = lambda k: KEYS.index(k) if k in KEYS else 99
        if n == "NoOp":
            return {"op": "land"}
        if n == "CrashOp":
            return {"op": "crash"}
        if n in ("PushSyncOp", "PopSyncOp"):
            return {"op": n[:-2].lower(), "id": l.f_id}
        if n == "GetOp":
            return {"op": "get", "k": key(l.f_key), "v": val(l.f_value)}
        if n == "PutOp":
            return {"op": "put", "k": key(l.f_key), "v": val(l.f_value)}
        if n == "CloneOp":
            ps = []
            for i, k in enumerate(KEYS):
                if k[:len(l.f_to)] == l.f_to:
                    ps.append([i, key(l.f_from + k[len(l.f_to):])])
            return {"op": "clone", "pairs": ps}
        if n == "SuccOp":
            a, b = l.f_start, l.f_end
            lo = 0 if a.tag == "NegativeInf" else sum(1 for k in KEYS if (k < a.f_key if a.tag == "SInclusive" else k <= a.f_key))
            hi = len(KEYS) if b.tag == "PositiveInf" else sum(1 for k in KEYS if (k <= b.f_key if b.tag == "EInclusive" else k < b.f_key))
            res = [[key(r.f_key), val(r.f_value)] for r in l.f_results]
            return {"op": "succ", "from": lo, "upto": hi, "fwd": True, "res": res}
        return {"op": "unknown", "name": n}

    def describe(self, s):
        return repr(s)


class ThreeStates(Design):
    files = ["MapSpec/ThreeStateVersionedMap.s.dfy"]
    next_, init_ = "ThreeStateVersionedMap.Next", "ThreeStateVersionedMap.Init"


class Journaled(Design):
    files = ["MapSpec/TSJMap.i.dfy"]
    next_, init_ = "TSJMap.Next", "TSJMap.Init"


class Composite(Design):
    """StatesView, the tree side with a disk of states, beside JournalView"""
    files = ["Versions/CompositeView_Refines_ThreeStateVersionedMap.i.dfy"]
    next_, init_ = "CompositeView.Next", "CompositeView.Init"
    nlocs = 2

    def __init__(self, repo):
        super().__init__(repo)
        loc = self.prog.get("DiskLayout.Location").ctors["Location"]
        self.locs = [loc(i + 1, 0) for i in range(self.nlocs)]
        sm = self.prog.get("MapSpec.Variables").ctors["Variables"]
        self.empty = sm(self.prog.get("MapSpec.EmptyMap")())
        self.junk = sm(dfy.IMap({k: (9,) for k in KEYS}))

    def hint(self, v):
        ty = v.ty
        if v.name == "disk":
            if self.state is None:
                return [dfy.IMap({self.locs[0]: self.empty})]
            # the disk changes at one place: the state of the tree or a frozen one is written, or it is left a mess
            t = self.state.f_tsm
            d = t.f_disk.d
            new = [x.f_value for x in (t.f_ephemeralState, t.f_frozenState) if x.tag == "Some"]
            out = [t.f_disk]
            for l in self.locs:
                for x in new + [self.junk]:
                    out.append(dfy.IMap({**d, l: x}))
                out.append(dfy.IMap({k: x for k, x in d.items() if k != l}))
            return list(dict.fromkeys(out))
        if ty is not None and ty[0] == "ty" and ty[1][-1] in ("Loc", "Location"):
            return self.locs
        return super().hint(v)


def strata(ns):
    """the shape of a state: which states and journals are there, and how far the syncs are"""
    def shape(x):
        if isinstance(x, dfy.DMap):
            return len(x) if len(x) < 4 else 0
        if isinstance(x, dfy.Data):
            return (x.tag,) + tuple(shape(y) for y in x.args_())
        return min(len(x), 2) if isinstance(x, tuple) else 0
    return ns[0], shape(ns[1])


def check(ctx, what, cls, nodes, beam, depth, secs):
    m = cls(harness.REPO)
    roots = m.inits()
    if not roots:
        raise harness.ToolError(f"{what}: no initial state")
    g = harness.explore(m.expand, roots, max_nodes=nodes, beam=beam, max_depth=depth, max_secs=secs, seed=ctx.seed, strata=strata)
    ctx.log(f"{what}: {len(g.states)} states, depth {g.depth}")
    return ctx.conform(g, "SyncMap", what, label=m.label, consts={"NKeys": len(KEYS), "Dflt": 0}, describe=str,
                       need=("put", "clone", "get", "succ", "pushsync", "popsync", "crash", "land"))
