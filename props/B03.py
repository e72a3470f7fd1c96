"""B+tree branches: sorted maps in memory, on disk, and under construction from allocation units."""
import harness
from m_branch import Branches


def run(ctx):
    for kind, n in [("pivot", 6000), ("linked", 6000), ("alloc", 6000)]:
        b = Branches(kind)
        ins = b.roots()
        g = harness.explore(b.expand, ins, max_nodes=ctx.pick(n, n * 15), beam=ctx.pick(300, 3000), max_depth=40, max_secs=ctx.pick(14, 200), seed=ctx.seed, broken=lambda s: not b.view(s)["ok"])
        steps = {}
        for es in g.edges:
            for l, st, j in es or ():
                steps[st] = steps.get(st, 0) + 1
        ctx.conform(g, "BranchMap", f"{kind} branch", eview=b.view, need=("append", "reshape") + (("fill", "seal") if kind == "alloc" else ("insert",)), consts={"Starts": b.starts(ins)})
        ctx.parts[-1]["steps_by_function"] = steps
        ctx.log(steps)
        ctx.notes += [f"{kind}: {k} not executable: {v}" for k, v in b.skipped.items()]
