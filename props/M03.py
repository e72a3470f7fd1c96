"""What the sequence formats say about arbitrary bytes."""
import m_marshal


def run(ctx):
    exe = m_marshal.build(ctx)
    m_marshal.cases(ctx, m_marshal.run(exe, "read", ctx.pick(4, 30), ctx.seed), "questions about arbitrary bytes")
