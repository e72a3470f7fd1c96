"""The journal over the page cache over the asynchronous disk."""
import harness
from m_jcs import Jcs

CONFIGS = [("one in flight", dict(addrs=3, slots=2, ids=1, maxlsn=3), 6000), ("two in flight", dict(addrs=2, slots=2, ids=2, maxlsn=3, sizes=(1, 3)), 6000), ("one slot", dict(addrs=3, slots=1, ids=1, maxlsn=4, sizes=(2,)), 4000)]


def starts(j, ins):
    return "{" + ", ".join(harness.tla({"start": v["start"], "msgs": v["msgs"]}) for v in map(j.view, ins) if v["ok"]) + "}"


def run(ctx):
    ctx.modelcheck("CachedJournal", {"Starts": "{[start |-> 0, msgs |-> <<>>], [start |-> 1, msgs |-> <<7>>]}", "Msgs": {1, 2}, "MaxEnd": ctx.pick(3, 4)})
    for what, kw, n in CONFIGS:
        j = Jcs(**kw)
        ins = j.inits()
        g = harness.explore(j.expand, ins, max_nodes=ctx.pick(n, n * 8), beam=ctx.pick(1200, 10000), max_depth=ctx.pick(26, 40), max_secs=ctx.pick(14, 200), seed=ctx.seed)
        ctx.notes += [f"{what}: transition {k} not executable: {v}" for k, v in j.skipped.items()]
        ctx.conform(g, "CachedJournal", f"cached journal, {what}", label=j.label, view=j.view, need=("put", "read", "freeze", "discard"), consts={"Starts": starts(j, ins)})
        end = lambda x: x.s.f_journal.f_unmarshalled_tail.f_seq_end
        mid = lambda x: x.s.f_journal.f_unmarshalled_tail.f_seq_start
        low = lambda x: x.s.f_journal.f_boundary_lsn
        res = lambda x: [e.f_addr for e in x.s.f_cache.f_entries.d.values() if e._variant == "Reserved"]
        # A slot reserved for a page that the journal holds stays reserved for ever: the design leaves it to its user not to do that.
        free = lambda x: len(res(x)) < len(j.slots) and not set(res(x)) & set(x.s.f_journal.f_lsn_addr_index.d.values())
        room = lambda x: len(set(x.s.f_journal.f_lsn_addr_index.d.values())) < len(j.addrs)
        ctx.progress(g, f"messages can be appended ({what})", lambda l, x: l["op"] == "put" and l["msgs"], lambda x: end(x) + max(j.sizes) <= j.maxlsn, label=j.label)
        ctx.progress(g, f"the oldest messages can be read for recovery ({what})", lambda l, x: l["op"] == "read" and l["start"] == low(x) and l["msgs"], lambda x: low(x) < mid(x) and free(x), label=j.label)
        ctx.progress(g, f"the whole log can become durable ({what})", lambda l, x: l["op"] == "freeze" and l["start"] == low(x) and l["start"] + len(l["msgs"]) == end(x), lambda x: free(x) and (mid(x) == end(x) or room(x)), label=j.label)
