"""The crash-tolerant map of the specification layer: CrashTolerantAsyncMap, AsyncMap, MapSpec, FloatingSeq, TotalKMMap."""
import harness
from m_system import CTMap


def run(ctx):
    ctx.modelcheck("CrashKV", {"Keys": {0, 1}, "Dflt": 0, "Vals": {1}, "Ids": {0}, "MaxWrites": 2})
    for cfg in [dict(ids=(0,), writes=3), dict(keys=1, vals=(1, 2), writes=2, ids=(0, 1))] + ([dict(keys=2, vals=(1, 2), writes=3, syncs=(0, 1))] if ctx.thorough else []):
        m = CTMap(**cfg)
        g = harness.explore(m.model.expand, m.model.inits(), max_nodes=ctx.pick(12000, 100000), beam=ctx.pick(1500, 8000), max_depth=60, max_secs=ctx.pick(30, 300), seed=ctx.seed)
        ctx.notes += [f"transition {k} not executable: {v}" for k, v in m.model.skipped.items()]
        w = f"crash-tolerant map, {len(m.keys)} keys, {m.writes} writes, {len(m.ids)} clients"
        ctx.conform(g, "CrashKV", w, label=m.label, need=("execute", "reply", "replysync", "land", "crash"), consts={"Keys": set(range(len(m.keys))), "Dflt": 0})
        quiet = dict(label=m.label, exclude=lambda l: l["op"] == "crash")
        ctx.progress(g, "a request executes: " + w, lambda l, s: l["op"] == "execute", must=lambda s: any(r.f_input._variant != "PutInput" for r in s.f_async_ephemeral.f_requests), **quiet)
        ctx.progress(g, "a sync is answered: " + w, lambda l, s: l["op"] == "replysync", must=lambda s: len(s.f_sync_requests.d) > 0, **quiet)
