"""Journals with persistent, in-flight and in-memory copies: crashes keep what was reported persistent."""
import harness
from m_journal import CrashJournal


def run(ctx):
    ctx.modelcheck("CrashJournal", {"AUs": {0}, "Msgs": {1, 2}, "MaxEnd": ctx.pick(3, 4)})
    for kind, maxlsn in [("abstract", 3), ("alloc", 3), ("unified", 3)]:
        j = CrashJournal(kind, maxlsn=maxlsn + (1 if ctx.thorough else 0), **({} if kind == "abstract" else dict(aus=2, pages=2, addrs=4, vals=(1,) if not ctx.thorough else (1, 2))))
        g = harness.explore(j.model.expand, j.model.inits(), max_nodes=ctx.pick(6000, 40000), beam=ctx.pick(2500, 20000), max_depth=40, max_secs=ctx.pick(20, 200), seed=ctx.seed)
        ctx.notes += [f"{kind}: transition {k} not executable: {v}" for k, v in j.model.skipped.items()]
        ctx.conform(g, "CrashJournal", f"{kind} crash-aware journal", label=j.clabel, view=j.cview, need=("put", "read", "cstart", "ccomplete", "crash", "load"),
                    consts={"AUs": set(range(j.aus)) if kind != "abstract" else {0}})
