"""The balanced tree of lib/DataStructures."""
import m_lib


def run(ctx):
    m_lib.check(ctx, ["balanced tree"], ctx.pick(80, 800), ctx.pick(700, 1000))
