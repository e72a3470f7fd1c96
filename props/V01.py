"""V01: the handlers of VeriBetrKV answer like one map, whatever the tree, the cache and the disk do meanwhile."""
import m_veribetr as V

TREE = ("FlushImpl.doFlush", "SplitImpl.doSplit", "GrowImpl.doGrow", "LeafImpl.repivotLeaf", "EvictImpl.EvictOrDealloc", "DeallocImpl.Dealloc", "IOImpl.PageInNodeReq")


def run(ctx):
    mixes = [dict(load=60, get=5, put=5, succ=1.5, push=0.3, graph=0.5), dict(load=100, get=4, put=6, succ=2, push=0.2, land=0.7, ack=0.7, answer=1, graph=0.7),
             dict(load=60, put=8, get=3, push=1, graph=1, pop=5, land=0.8, ack=0.6)]
    large = [dict(load=200, get=5, put=5, succ=1.5, push=0.3, graph=0.5, answer=6, land=6, ack=6), dict(load=250, get=4, put=6, succ=1, push=0.6, graph=0.8, pop=5, answer=4, land=3, ack=3)]
    # a disk slow with writes, while the cache is full and blocks are read again
    lazy = dict(load=100, get=20, put=6, succ=0.1, push=2, graph=1, land=0.05, ack=0.1, answer=8)
    n = ctx.pick(16, 150)
    pairs = [(V.config(i), m) for m in mixes[:2] for i in range(8)] + [(V.big(i), m) for m in large for i in range(4)] + [(V.big(i), lazy) for i in range(4)]
    V.walk_check(ctx, "tree at work", None, len(pairs), 400, ctx.pick(40, 400), pairs=pairs, seeds=n, need=TREE, nkeys=160)
