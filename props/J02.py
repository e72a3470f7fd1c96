"""Journal space accounting: units are taken fresh and given back only when nothing needs them."""
import harness
from m_journal import Journal
from props.J01 import starts


def run(ctx):
    for aus, pages, maxlsn in [(2, 2, 4), (3, 1, 3)]:
        j = Journal("alloc", maxlsn=maxlsn, aus=aus, pages=pages, addrs=aus * pages, vals=(1,))
        ins = j.model.inits()
        g = harness.explore(j.model.expand, ins, max_nodes=ctx.pick(5000, 40000), beam=ctx.pick(2500, 20000), max_depth=30, max_secs=ctx.pick(20, 150), seed=ctx.seed)
        ctx.notes += [f"transition {k} not executable: {v}" for k, v in j.model.skipped.items()]
        ctx.conform(g, "AllocLog", f"allocation journal, {aus} units of {pages} pages", label=j.label, view=j.aview, need=("put", "discard", "tau"),
                    consts={"Starts": starts(j, ins), "AUs": set(range(aus))})
