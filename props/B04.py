"""The B-epsilon tree over B+tree branches in allocation units: building, linking in, compacting and freeing branches."""
import harness
from m_brbetree import BranchBetree


def run(ctx):
    b = BranchBetree()
    ins = b.model.inits() + b.prepared()
    g = harness.explore(b.expand, ins, max_nodes=ctx.pick(12000, 150000), beam=ctx.pick(450, 4000), max_depth=60, max_secs=ctx.pick(40, 400), seed=ctx.seed, broken=lambda s: not b.view(s)["ok"], strata=b.strata)
    ctx.notes += [f"transition {k} not executable: {v}" for k, v in b.model.skipped.items()]
    steps = {}
    for es in g.edges:
        for l, st, j in es or ():
            steps[st._variant] = steps.get(st._variant, 0) + 1
    ctx.conform(g, "BetreeAlloc", "branch betree", label=b.label, eview=lambda s, es: b.view(s, es, g), need=("put", "query", "freeze", "internal"), consts={"Starts": b.starts(ins)})
    ctx.parts[-1]["steps_by_transition"] = steps
    ctx.log(steps)
