"""Checksums, and the blocks of the journal."""
import m_formats


def run(ctx):
    m_formats.check(ctx, [("checksums", ctx.pick(16, 160), ctx.pick(30, 60)), ("journal", ctx.pick(32, 320), ctx.pick(12, 30))])
