"""The system model (SystemModel over ConcreteProgramModel, AtomicState, AsyncDisk) and the crash-tolerant map of the specification layer
(CrashTolerantAsyncMap over AsyncMap, MapSpec, FloatingSeq), with the labels their clients see."""
from rust import *
import smexec
from m_linked import has
from m_coord import ctam_label, req, rep

M = "spec::MapSpec_t::"


class Client:
    """Client requests and their answers, in the terms of MapSpec_t."""

    def terms(self, c, keys, vals):
        K = c.get("spec::KeyType_t::Key").variants["Key"]
        Val = c.get("spec::Messages_t::Value").variants["Value"]
        self.keys = [K(i) for i in range(keys)]
        self.vals = [Val(v) for v in vals]
        c.univ["Key"] = self.keys
        c.univ["Value"] = [Val(0)] + self.vals
        self.Input = variants(c, M + "Input")
        self.Output = variants(c, M + "Output")
        self.Req = variants(c, M + "Request")["Request"]
        self.Rep = variants(c, M + "Reply")["Reply"]
        self.AM = variants(c, M + "AsyncMap::Label")
        self.CT = variants(c, M + "CrashTolerantAsyncMap::Label")

    def inputs(self, puts):
        In = self.Input
        out = [In["QueryInput"](k) for k in self.keys] + [In["NoopInput"]()]
        if puts:
            out += [In["PutInput"](k, v) for k in self.keys for v in self.vals]
        return out

    def outputs(self):
        Out = self.Output
        return [Out["PutOutput"](), Out["NoopOutput"]()] + [Out["QueryOutput"](v) for v in self.c.univ["Value"]]


def content(p):
    return p.f_appv.f_kmmap.f_0.d


def subsets(s, x):
    """The set s, with and without x."""
    out = [FSet(s)]
    if x is not None:
        out += [FSet(set(s) | {x}), FSet(set(s) - {x})]
    return list(dict.fromkeys(out))


class CTMap(Client):
    """CrashTolerantAsyncMap."""

    def __init__(self, keys=2, vals=(1,), writes=2, ids=(0, 1), syncs=(0,)):
        c = self.c = crate(["spec"], natmax=writes + 2)
        self.terms(c, keys, vals)
        self.writes, self.ids, self.syncs = writes, ids, syncs
        self.ML = variants(c, M + "MapSpec::Label")
        self.FS = variants(c, "spec::FloatingSeq_t::FloatingSeq")["FloatingSeq"]
        self.PS = variants(c, M + "PersistentState")["PersistentState"]
        self.ES = variants(c, M + "EphemeralState")["EphemeralState"]
        self.model = Model(c, "CrashTolerantAsyncMap", self.labels, self.hint)

    def maps(self, p):
        """The map p, and every map that differs from it in one entry."""
        yield p
        d = content(p)
        MS, TK, Msg = type(p.f_appv), type(p.f_appv.f_kmmap), None
        for k in self.keys:
            for v in self.c.univ["Value"]:
                m = d[k]
                n = type(m)(v)
                if n != m:
                    yield self.PS(MS(TK(FMap({**d, k: n}))))

    def hint(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if pre is None:
            return None
        if p == "new_versions":
            v = pre.f_versions
            out = [v]
            es = list(v.f_entries)
            if not es:
                return out
            for m in self.maps(es[-1]):
                out.append(self.FS(v.f_start, v.f_entries + Seq([m])))
            # versions that are lost, or changed after the fact
            out.append(self.FS(v.f_start, Seq(es[:-1])))
            for i in range(len(es)):
                for m in self.maps(es[i]):
                    if m != es[i]:
                        out.append(self.FS(v.f_start, Seq(es[:i] + [m] + es[i + 1:])))
                        out.append(self.FS(v.f_start, Seq(es[:i] + [m] + es[i + 1:] + es[-1:])))
            return out
        if p == "post_persistent":
            return list(self.maps(pre.f_persistent))
        if p == "map_label":
            b = get("label")
            if b._variant != "ExecuteOp":
                return []
            return [self.ML[x](b.f_req.f_input, b.f_reply.f_output) for x in ("Query", "Put", "Noop")]
        if p == "new_async_ephemeral":
            e, b = pre.f_async_ephemeral, get("label")
            if b._variant != "OperateOp":
                return []
            b = b.f_base_op
            out = []
            for rq in subsets(e.f_requests, b.f_req if has(b, "f_req") else None):
                for rp in subsets(e.f_replies, b.f_reply if has(b, "f_reply") else None):
                    out.append(self.ES(rq, rp))
            return out
        if tn == "int":
            return range(0, self.writes + 4)
        return None

    def labels(self, s):
        CT, AM = self.CT, self.AM
        out = [CT["Noop"](), CT["SyncOp"](), CT["CrashOp"]()]
        for i in self.syncs:
            out += [CT["ReqSyncOp"](i), CT["ReplySyncOp"](i)]
        e = s.f_async_ephemeral
        used = {r.f_id for r in e.f_requests} | {r.f_id for r in e.f_replies}
        n = s.f_versions.f_start + len(s.f_versions.f_entries)
        for i in self.ids:
            if i not in used:
                out += [CT["OperateOp"](AM["RequestOp"](self.Req(x, i))) for x in self.inputs(n <= self.writes)]
                break
        for r in sorted(e.f_requests, key=lambda r: r.f_id):
            for o in self.outputs():
                if o._variant != "PutOutput" or n <= self.writes:
                    out.append(CT["OperateOp"](AM["ExecuteOp"](r, self.Rep(o, r.f_id))))
                    out += [CT["OperateOp"](AM["ExecuteOp"](r, self.Rep(o, i))) for i in self.ids if i != r.f_id]
        for r in sorted(e.f_replies, key=lambda r: r.f_id):
            out.append(CT["OperateOp"](AM["ReplyOp"](r)))
        return out

    def label(self, l):
        return {"op": "land"} if l._variant == "SyncOp" else ctam_label(l)


class System(Client):
    """SystemModel<ConcreteProgramModel>: the program's atomic state over the asynchronous disk, with superblocks as opaque pages."""

    def __init__(self, keys=2, vals=(1,), writes=2, ids=5, clients=1):
        c = self.c = crate(["spec", "implementation", "trusted", "abstract_system"], natmax=writes + 2)
        self.terms(c, keys, vals)
        self.writes, self.ids, self.clients = writes, ids, clients
        c.overrides["page_count"] = lambda: 1
        c.overrides["au_count"] = lambda: 1
        c.overrides["spec_marshall"] = lambda sb: Seq([sb])
        c.overrides["spec_unmarshall"] = lambda p: p[0]
        c.bindings["ProgramModel"] = c.get("implementation::ConcreteProgramModel_v::ConcreteProgramModel")
        D = "spec::AsyncDisk_t::"
        self.Rq = variants(c, D + "GenericDiskRequest")
        self.Rs = variants(c, D + "GenericDiskResponse")
        self.A = variants(c, D + "Address")["Address"](0, 0)
        T = "trusted::ProgramModelTrait_t::"
        self.UO = variants(c, T + "ProgramUserOp")
        self.DI = variants(c, T + "ProgramDiskInfo")["ProgramDiskInfo"]
        self.SB = variants(c, "implementation::DiskLayout_v::Superblock")["Superblock"]
        self.L = variants(c, "trusted::SystemModel_t::SystemModel::Label")
        self.DE = variants(c, "implementation::AtomicState_v::DiskEvent")
        self.model = Model(c, "SystemModel", self.labels, self.hint)
        self.AS = variants(c, "implementation::AtomicState_v::AtomicState")["AtomicState"]
        self.PM = variants(c, "implementation::ConcreteProgramModel_v::ConcreteProgramModel")["ConcreteProgramModel"]
        self.MSS, self.TK = c.sm("MapSpec").state.variants["State"], variants(c, "spec::TotalKMMap_t::TotalKMMap")["TotalKMMap"]
        self.Def = variants(c, "spec::Messages_t::Message")["Define"]
        self.PS = variants(c, M + "PersistentState")["PersistentState"]
        self.FS = variants(c, "spec::FloatingSeq_t::FloatingSeq")["FloatingSeq"]
        self.disk = c.sm("AsyncDisk").state.variants["State"]
        c.univ["K"] = self.rids = [0, 1]

    def store(self, vals):
        return self.PS(self.MSS(self.TK(FMap((k, self.Def(v)) for k, v in zip(self.keys, vals)))))

    def hint(self, c, sm, t, p, ty, pre, get):
        if pre is None:
            if p == "program":
                return [self.PM(LVar(self.AS._type))]
            if p == "disk":
                st = self.store([self.c.univ["Value"][0]] * len(self.keys))
                return [self.disk(*[{"requests": FMap(), "responses": FMap(), "content": FMap([(self.A, Seq([self.SB(st, 0)]))])}[f[2:]] for f in self.disk._slots])]
            return None
        tn = tyname(ty)
        if p == "new_program" and not isinstance(get(p), LVar) or p == "new_disk":
            return smexec.DEFER
        if p == "new_program" and t == "program_execute":
            h = pre.f_program.f_state.f_history
            out = [h]
            if not isinstance(h, Data):
                return []
            if len(h.f_entries):
                d = content(list(h.f_entries)[-1])
                for k in self.keys:
                    for v in self.c.univ["Value"]:
                        out.append(self.FS(h.f_start, h.f_entries + Seq([self.store([v.__class__(v.f_0) if q == k else d[q].f_value for q in self.keys])])))
            res = []
            for x in out:
                args = [x if f == "f_history" else LVar() for f in self.AS._slots]
                res.append(self.PM(self.AS(*args)))
            return res
        if tn in ("Self", "AtomicState", "ConcreteProgramModel"):
            return smexec.DEFER
        if p == "new_program":
            return [self.PM(LVar(self.AS._type))]
        return None

    def labels(self, s):
        L, UO, out = self.L, self.UO, []
        st = s.f_program.f_state
        ready = st.f_recovery_state._variant == "RecoveryComplete"
        h = st.f_history
        n = h.f_start + len(h.f_entries) if ready and isinstance(h, Data) else 0
        DE, ev = self.DE, [self.DE["ExecuteSyncEnd"]()]
        for i in self.rids:
            ev += [DE["InitiateRecovery"](i), DE["ExecuteSyncBegin"](i)]
        for i, r in s.f_disk.f_responses.d.items():
            if r._variant == "ReadResp":
                ev.append(DE["CompleteRecovery"](i, r.f_data))
        self.c.univ["DiskEvent"] = ev
        nid = len(list(s.f_id_history.d))
        out += [L["DiskInternal"](), L["ProgramInternal"](), L["Crash"]()]
        busy = len(s.f_requests.d) + len(s.f_replies.d) + len(s.f_sync_requests.d) + len(s.f_sync_replies.d) + (len(st.f_sync_req_map.d) if ready else 0)
        if nid < self.ids and busy < self.clients and (ready or nid == 0):
            out += [L["AcceptRequest"](self.Req(x, nid)) for x in self.inputs(True)]
            out.append(L["AcceptSyncRequest"](nid))
        for r in sorted(s.f_replies.d, key=repr):
            out.append(L["DeliverReply"](r))
        for r in sorted(s.f_requests.d, key=repr):
            for o in self.outputs():
                if n <= self.writes or o._variant != "PutOutput":
                    out += [L["ProgramUIOp"](UO["Execute"](r, self.Rep(o, i))) for i in (r.f_id,) + ((r.f_id - 1,) if r.f_id else ())]
        # a request that is not there: executed before, answered, or never made
        here = {r.f_id for r in s.f_requests.d}
        for i in (nid - 1, nid):
            if i >= 0 and i not in here:
                for x in self.inputs(n <= self.writes):
                    o = {"QueryInput": "QueryOutput", "PutInput": "PutOutput", "NoopInput": "NoopOutput"}[x._variant]
                    out += [L["ProgramUIOp"](UO["Execute"](self.Req(x, i), self.Rep(y, i))) for y in self.outputs() if y._variant == o]
        # the interface calls program_accept_sync_request once per request it took in
        for i in sorted(s.f_sync_requests.d):
            out.append(L["ProgramUIOp"](UO["AcceptSyncRequest"](i)))
        if ready:
            for i in sorted(st.f_sync_req_map.d):
                out.append(L["ProgramUIOp"](UO["DeliverSyncReply"](i)))
        for i in sorted(s.f_sync_replies.d):
            out.append(L["DeliverSyncReply"](i))
        none = MSet()
        # disk traffic
        reqs = [self.Rq["ReadReq"](self.A)]
        if n:
            for k in range(len(h.f_entries)):
                for v in {h.f_start + k, n - 1}:
                    reqs.append(self.Rq["WriteReq"](self.A, Seq([self.SB(h.f_entries[k], v)])))
        dk = s.f_disk
        for i in self.rids:
            if i not in dk.f_requests.d and i not in dk.f_responses.d:
                out += [L["ProgramDiskOp"](self.DI(MSet([((i, r), 1)]), none)) for r in reqs]
                break
        for i, r in sorted(dk.f_responses.d.items()):
            out.append(L["ProgramDiskOp"](self.DI(none, MSet([((i, r), 1)]))))
        return out

    def kind(self, s):
        """for spreading the exploration: how far the disk, the memory and the syncs have come"""
        st = s.f_program.f_state
        ready = st.f_recovery_state._variant == "RecoveryComplete"
        h = st.f_history
        c = s.f_disk.f_content.d.get(self.A)
        disk = c[0].f_version_index if c is not None and len(c) else None
        if not (ready and isinstance(h, Data)):
            return st.f_recovery_state._variant, disk
        return disk, h.f_start, len(h.f_entries), len(st.f_sync_req_map.d), len(s.f_requests.d) + len(s.f_replies.d), len(s.f_disk.f_requests.d), len(s.f_disk.f_responses.d)

    def executable(self, s):
        """Is there a request that the bounds of the exploration let execute?"""
        st = s.f_program.f_state
        room = st.f_recovery_state._variant == "RecoveryComplete" and st.f_history.f_start + len(st.f_history.f_entries) <= self.writes
        return any(room or r.f_input._variant != "PutInput" for r in s.f_requests.d)

    def label(self, l):
        v = l._variant
        if v == "AcceptRequest":
            return {"op": "request", "req": req(l.f_req)}
        if v == "DeliverReply":
            return {"op": "reply", "rep": rep(l.f_reply)}
        if v == "ProgramUIOp":
            o = l.f_op
            if o._variant == "Execute":
                return {"op": "execute", "req": req(o.f_req), "rep": rep(o.f_reply)}
            return {"op": "reqsync" if o._variant == "AcceptSyncRequest" else "replysync", "id": o.f_sync_req_id}
        if v == "DiskInternal":
            return {"op": "land"}
        if v == "Crash":
            return {"op": "crash"}
        return {"op": "tau"}
