"""Marshalled values read back, and arbitrary bytes parse to the value they encode or to nothing."""
import m_marshal


def run(ctx):
    exe = m_marshal.build(ctx)
    recs = m_marshal.run(exe, "marshal", ctx.pick(6, 40), ctx.seed)
    m_marshal.cases(ctx, [r for r in recs if r["op"] in ("marshal", "died")], "values written and read back")
    m_marshal.cases(ctx, [r for r in recs if r["op"] == "parse"], "arbitrary bytes parsed")
