"""The page cache over the asynchronous disk."""
import harness
from m_cache import CacheDisk


def run(ctx):
    m = CacheDisk(slots=ctx.pick(2, 2), vals=ctx.pick(2, 2), ids=ctx.pick(3, 4))
    g = harness.explore(m.expand, m.inits(), max_nodes=ctx.pick(20000, 200000), beam=ctx.pick(1200, 8000), max_depth=60, max_secs=ctx.pick(40, 500), seed=ctx.seed)
    ctx.notes += [f"transition {k} not executable: {v}" for k, v in {**m.skipped, **m.cm.skipped, **m.dm.skipped}.items()]
    ctx.conform(g, "PageCache", "page cache over the disk", label=m.label, eview=lambda s, es: m.view(s, es, g), need=("access", "check", "internal"), consts={"Pages": len(m.addrs)})
