"""The hash tables of lib/DataStructures."""
import m_lib


def run(ctx):
    m_lib.check(ctx, ["hash table", "hash table of linear values", "hash table on the heap"], ctx.pick(48, 400), ctx.pick(700, 1000))
