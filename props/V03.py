"""V03: VeriBetrKV never believes a damaged block."""
import m_veribetr as V


def run(ctx):
    mixes = [dict(probe=0.04, crash=0.05, push=2, bad=1), dict(load=60, crash=0.01, get=6, bad=0.4, push=1), dict(crash=0.1, push=3, bad=0.5, load=30)]
    V.walk_check(ctx, "damaged reads", mixes, 24, 300, ctx.pick(40, 400), seeds=ctx.pick(28, 80))
