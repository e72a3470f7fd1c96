import harness
from m_coord import Coord


def run(ctx):
    ctx.modelcheck("CrashKV", {"Keys": {0}, "Dflt": 0, "Vals": {1}, "Ids": {0}, "MaxWrites": 2})
    for keys, ops in [(1, 1), (1, 2)] + ([(2, 2), (1, 3)] if ctx.thorough else []):
        m = Coord(keys=keys, max_ops=ops, reads=False)
        g = harness.explore(m.model.expand, m.model.inits(), max_nodes=ctx.pick(60000, 300000), max_depth=200, max_secs=ctx.pick(40, 400), seed=ctx.seed)
        ctx.notes += [f"transition {k} not executable: {v}" for k, v in m.model.skipped.items()]
        w = f" ({keys} keys, {ops} writes)"
        ctx.progress(g, "a request can always be executed after finitely many more steps" + w, lambda l, s: l["op"] in ("execute", "replysync"), label=m.label)
        ctx.progress(g, "a pending sync can always be answered" + w, lambda l, s: l["op"] == "replysync", label=m.label,
                     exclude=lambda l: l["op"] == "crash",
                     must=lambda s: s.f_ephemeral._variant == "Some" and len(s.f_ephemeral.f_0.f_sync_reqs.d) > 0)
