import harness
from m_coord import Coord


def run(ctx):
    ctx.modelcheck("CrashKV", {"Keys": {0, 1}, "Dflt": 0, "Vals": {1}, "Ids": {0}, "MaxWrites": ctx.pick(3, 4)})
    m = Coord(keys=2, max_ops=ctx.pick(2, 3))
    g = harness.explore(m.model.expand, m.model.inits(), max_nodes=ctx.pick(40000, 150000), beam=ctx.pick(4000, 20000), max_depth=ctx.pick(45, 80), max_secs=ctx.pick(60, 400), seed=ctx.seed)
    ctx.notes += [f"transition {k} not executable: {v}" for k, v in m.model.skipped.items()]
    ctx.conform(g, "CrashKV", "coordination system with crashes", label=m.label, need=("replysync", "crash", "execute"),
                consts={"Keys": {0, 1}, "Dflt": 0})
