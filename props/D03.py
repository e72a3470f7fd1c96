"""Bitmaps, lists, queues, vectors and sequences of lib/."""
import m_lib


def run(ctx):
    m_lib.check(ctx, ["bitmap", "linked list", "LRU queue", "LRU queue on the heap", "set in order", "vector", "linear sequence"], ctx.pick(32, 400), ctx.pick(700, 1000))
