"""The B-epsilon trees on disk: linked nodes and buffers, reference counts, allocation units."""
import harness
from m_linked import Linked


def run(ctx):
    for kind, n in [("linked", 8000), ("likes", 8000), ("alloc", 8000)]:
        b = Linked(kind)
        ins = b.model.inits()
        g = harness.explore(b.expand, ins, max_nodes=ctx.pick(n, n * 15), beam=ctx.pick(250, 3000), max_depth=40, max_secs=ctx.pick(14, 180), seed=ctx.seed, broken=lambda s: not b.view(s)["ok"])
        ctx.notes += [f"{kind}: transition {k} not executable: {v}" for k, v in b.model.skipped.items()]
        steps = {}
        for es in g.edges:
            for l, st, j in es or ():
                steps[st._variant] = steps.get(st._variant, 0) + 1
        ctx.conform(g, "BetreeDisk", f"{kind} betree", label=b.label, eview=lambda s, es: b.view(s, es, g), need=("put", "query", "freeze"), consts={"Starts": b.starts(ins)})
        ctx.parts[-1]["steps_by_transition"] = steps
