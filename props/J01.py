"""The journals as logs: every layer, from the message history down to the allocated pages."""
import harness
import rt
from m_journal import Journal


def starts(j, ins):
    out = []
    for s in ins:
        c = j.content(s)
        x = {"start": c["start"], "msgs": c["msgs"]}
        if c["ok"] and x not in out:
            out.append(x)
    return "{" + ", ".join(harness.tla(x) for x in out) + "}"


def run(ctx):
    ctx.modelcheck("LogJournal", {"Starts": "{[start |-> 0, msgs |-> <<>>], [start |-> 1, msgs |-> <<7>>]}", "Msgs": {1, 2}, "MaxEnd": ctx.pick(4, 5)})
    for kind, n in [("abstract", 3000), ("paged", 6000), ("linked", 12000), ("likes", 8000), ("alloc", 3000)]:
        j = Journal(kind, **(dict(maxlsn=5) if ctx.thorough else {}))
        ins = j.model.inits()
        g = harness.explore(j.model.expand, ins, max_nodes=ctx.pick(n, n * 8), beam=ctx.pick(2500, 20000), max_depth=30, max_secs=ctx.pick(12, 120), seed=ctx.seed)
        ctx.notes += [f"{kind}: transition {k} not executable: {v}" for k, v in j.model.skipped.items()]
        ctx.conform(g, "LogJournal", f"{kind} journal", label=j.label, view=j.content, need=("put", "read", "freeze", "discard"), consts={"Starts": starts(j, ins)})
