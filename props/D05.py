"""Pivot tables and changes of prefixes."""
import m_pivots


def run(ctx):
    m_pivots.check(ctx, ctx.pick(112, 960), ctx.pick(600, 1000))
