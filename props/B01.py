"""The B-epsilon trees as maps: paged, pivot and filtered layers."""
import harness
from m_betree import Betree


def run(ctx):
    ctx.modelcheck("BetreeMap", {"Starts": "{[map |-> <<0, 0>>, end |-> 0]}", "Keys": {0, 1}, "Vals": {1, 2}, "MaxEnd": 3})
    for kind, n in [("paged", 2500), ("pivot", 6000), ("filtered", 6000)]:
        b = Betree(kind, keys=2 if kind == "paged" else 3, maxlsn=4)
        ins = b.model.inits()
        g = harness.explore(b.expand, ins, max_nodes=ctx.pick(n, n * 10), beam=ctx.pick(600, 5000), max_depth=40, max_secs=ctx.pick(14, 150), seed=ctx.seed, broken=lambda s: not b.view(s)["ok"])
        ctx.notes += [f"{kind}: transition {k} not executable: {v}" for k, v in b.model.skipped.items()]
        steps = {}
        for es in g.edges:
            for l, st, j in es or ():
                steps[st._variant] = steps.get(st._variant, 0) + 1
        ctx.conform(g, "BetreeMap", f"{kind} betree", label=b.label, eview=lambda s, es: b.view(s, es, g), need=("put", "query", "freeze"), consts={"Starts": b.starts(ins)})
        ctx.parts[-1]["steps_by_transition"] = steps
