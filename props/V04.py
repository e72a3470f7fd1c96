"""V04: copying the keys of one prefix to another in VeriBetrKV copies exactly those."""
import m_veribetr as V


def run(ctx):
    C = V.Config
    cfgs = [C(weight=1500, keys=32, cache=16, flush=100, children=12, prefixes=4), C(weight=700, keys=30, cache=16, flush=80, children=10, lens=(0, 3, 20, 30), prefixes=3),
            C(weight=2000, keys=36, cache=16, flush=120, children=10, prefixes=6), C(weight=1000, keys=40, cache=16, flush=80, children=12, lens=(0, 20, 40), prefixes=5)]
    mixes = [dict(load=60, clone=1, get=4, put=3, succ=2, push=0.4), dict(load=80, clone=0.8, probe=0.02, crash=0.02, put=3)]
    V.walk_check(ctx, "clones", mixes, 16, 300, ctx.pick(40, 400), cfgs=cfgs, seeds=ctx.pick(30, 100), need=("CloneImpl.doClone", "NodeImpl.Node.CloneNewRoot"))
