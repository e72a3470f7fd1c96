import harness
from m_coord import Coord


def run(ctx):
    ctx.modelcheck("CrashKV", {"Keys": {0}, "Dflt": 0, "Vals": {1}, "Ids": {0, 1}, "MaxWrites": ctx.pick(2, 3)})
    for keys, ops, ids in [(2, 3, (0,)), (1, 2, (0, 1))] + ([(2, 3, (0, 1)), (3, 4, (0,))] if ctx.thorough else []):
        m = Coord(keys=keys, max_ops=ops, vals=(1, 2) if keys < 3 else (1,), ids=ids, crash=False, sync=False)
        g = harness.explore(m.model.expand, m.model.inits(), max_nodes=ctx.pick(25000, 100000), beam=ctx.pick(3000, 20000), max_depth=ctx.pick(45, 80),
                            max_secs=ctx.pick(35, 200), seed=ctx.seed)
        ctx.notes += [f"transition {k} not executable: {v}" for k, v in m.model.skipped.items()]
        ctx.conform(g, "CrashKV", f"coordination system, {keys} keys, {ops} writes, {len(ids)} clients", label=m.label, need=("execute", "reply"),
                    consts={"Keys": set(range(keys)), "Dflt": 0})
