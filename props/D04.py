"""Buckets, their packed forms, flushes and scans."""
import m_buckets


def run(ctx):
    m_buckets.check(ctx, ctx.pick(256, 1600), ctx.pick(600, 1000))
