"""Values and blocks of the disk, written and read."""
import m_formats


def run(ctx):
    m_formats.check(ctx, [("values", ctx.pick(64, 640), ctx.pick(300, 600)), ("blocks", ctx.pick(64, 640), ctx.pick(300, 600))])
