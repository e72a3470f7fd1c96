"""Sequences kept in a buffer and updated in place."""
import m_marshal


def run(ctx):
    exe = m_marshal.build(ctx)
    for h in m_marshal.run(exe, "history", ctx.pick(4, 30), ctx.seed):
        if h["op"] == "died":
            m_marshal.cases(ctx, [h], "histories of updates")
        else:
            m_marshal.history(ctx, h)
