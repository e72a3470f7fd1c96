"""The crash-tolerant key-value store: CoordinationSystem (Rust), labels as the client sees them."""
from rust import *


class Coord:
    def __init__(self, keys=2, vals=(1,), max_ops=2, ids=(0,), syncs=(0,), crash=True, sync=True, reads=True):
        self.reads = reads
        c = self.c = crate(["spec", "abstract_system"], natmax=max_ops + 1)
        K = c.get("spec::KeyType_t::Key").variants["Key"]
        Val = c.get("spec::Messages_t::Value").variants["Value"]
        self.keys = [K(i) for i in range(keys)]
        self.vals = [Val(v) for v in vals]
        self.max_ops, self.ids, self.syncs, self.crash, self.sync = max_ops, ids, syncs, crash, sync
        c.univ["Key"] = self.keys
        c.univ["Value"] = [Val(0)] + self.vals
        M = "spec::MapSpec_t::"
        self.Input = variants(c, M + "Input")
        self.Output = variants(c, M + "Output")
        self.Req = variants(c, M + "Request")["Request"]
        self.Rep = variants(c, M + "Reply")["Reply"]
        self.AM = variants(c, M + "AsyncMap::Label")
        self.CT = variants(c, M + "CrashTolerantAsyncMap::Label")
        self.L = variants(c, "abstract_system::AbstractCrashAwareSystem_v::CoordinationSystem::Label")["Label"]
        self.MH = variants(c, "abstract_system::MsgHistory_v::MsgHistory")["MsgHistory"]
        self.model = Model(c, "CoordinationSystem", self.labels, self.hint)

    def slices(self, h):
        return [self.MH(FMap((k, v) for k, v in h.f_msgs.d.items() if a <= k < b), a, b)
                for a in range(h.f_seq_start, h.f_seq_end + 1) for b in range(a, h.f_seq_end + 1)]

    def hint(self, c, sm, t, p, ty, pre, get):
        tn = tyname(ty)
        if tn in ("MsgHistory", "StoreImage"):
            j = pre
            if hasattr(j, "f_journal"):
                j = j.f_journal
            if isinstance(j, Data) and j._type.name == "MsgHistory":
                return self.slices(j)
            e = getattr(j, "f_ephemeral", None)
            if e is not None:
                return self.slices(e.f_v.f_journal) if e._variant == "Known" else self.slices(j.f_persistent)
            return []
        if tn in ("LSN", "nat"):
            return range(0, self.max_ops + 2)
        return None

    def labels(self, s):
        CT, AM, In, Out = self.CT, self.AM, self.Input, self.Output
        out = [CT["Noop"]()]
        if self.sync:
            out.append(CT["SyncOp"]())
        if self.crash:
            out.append(CT["CrashOp"]())
        e = s.f_ephemeral
        if e._variant == "Some":
            k = e.f_0
            for i in self.syncs if self.sync else ():
                out += [CT["ReqSyncOp"](i), CT["ReplySyncOp"](i)]
            used = {r.f_id for r in k.f_progress.f_requests} | {r.f_id for r in k.f_progress.f_replies}
            for i in self.ids:
                if i in used:
                    continue
                inputs = [In["QueryInput"](kk) for kk in self.keys] + [In["NoopInput"]()] if self.reads else []
                if k.f_map_lsn < self.max_ops:
                    inputs += [In["PutInput"](kk, v) for kk in self.keys for v in self.vals]
                out += [CT["OperateOp"](AM["RequestOp"](self.Req(x, i))) for x in inputs]
                break
            # ids nobody uses are tried as well, and must not be answered or executed
            for r in sorted(k.f_progress.f_requests, key=lambda r: r.f_id):
                out.append(CT["OperateOp"](AM["ExecuteOp"](r, self.Rep(self.outof(r), 9))))
                out.append(CT["OperateOp"](AM["ExecuteOp"](self.Req(r.f_input, 9), self.Rep(self.outof(r), 9))))
                if len(self.ids) > 1:
                    out += [CT["OperateOp"](AM["ExecuteOp"](r, self.Rep(self.outof(r), i))) for i in self.ids if i != r.f_id]
                for o in [Out["PutOutput"](), Out["NoopOutput"]()] + [Out["QueryOutput"](v) for v in self.c.univ["Value"]]:
                    out.append(CT["OperateOp"](AM["ExecuteOp"](r, self.Rep(o, r.f_id))))
            for r in sorted(k.f_progress.f_replies, key=lambda r: r.f_id):
                out.append(CT["OperateOp"](AM["ReplyOp"](self.Rep(r.f_output, 9))))
                if r.f_output._variant == "QueryOutput":
                    out += [CT["OperateOp"](AM["ReplyOp"](self.Rep(Out["QueryOutput"](v), r.f_id))) for v in self.c.univ["Value"] if v != r.f_output.f_value]
                out.append(CT["OperateOp"](AM["ReplyOp"](r)))
        return [self.L(x) for x in out]

    def outof(self, r):
        return self.Output[{"PutInput": "PutOutput", "NoopInput": "NoopOutput"}[r.f_input._variant]]() if r.f_input._variant != "QueryInput" else self.Output["QueryOutput"](self.c.univ["Value"][0])

    def init_kv(self, inits):
        pass

    def label(self, l):
        return ctam_label(l.f_ctam_label)


def req(r):
    i = r.f_input
    d = {"id": r.f_id}
    if i._variant == "PutInput":
        d.update(kind="put", k=i.f_key.f_0, v=i.f_value.f_0)
    elif i._variant == "QueryInput":
        d.update(kind="get", k=i.f_key.f_0)
    else:
        d.update(kind="noop")
    return d


def rep(r):
    o = r.f_output
    d = {"id": r.f_id}
    if o._variant == "PutOutput":
        d.update(out="ok")
    elif o._variant == "QueryOutput":
        d.update(out="value", v=o.f_value.f_0)
    else:
        d.update(out="noop")
    return d


def ctam_label(l):
    v = l._variant
    if v == "OperateOp":
        b = l.f_base_op
        if b._variant == "RequestOp":
            return {"op": "request", "req": req(b.f_req)}
        if b._variant == "ExecuteOp":
            return {"op": "execute", "req": req(b.f_req), "rep": rep(b.f_reply)}
        return {"op": "reply", "rep": rep(b.f_reply)}
    if v == "ReqSyncOp":
        return {"op": "reqsync", "id": l.f_sync_req_id}
    if v == "ReplySyncOp":
        return {"op": "replysync", "id": l.f_sync_req_id}
    if v == "CrashOp":
        return {"op": "crash"}
    if v == "SyncOp":
        return {"op": "land"}
    return {"op": "tau"}
