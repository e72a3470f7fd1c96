"""V05: every operation on VeriBetrKV gets done."""
import m_veribetr as V

KNOWN = "idle-log-sync"
FULL = "full-cache-succ"


def run(ctx):
    mixes = [dict(load=40, get=5, put=5, succ=1.5, push=1, graph=0.5, logsync=1), dict(load=60, put=6, push=2, graph=0.3, crash=0.01, logsync=1), dict(load=30, put=8, push=0.3, land=0.5, ack=0.5, answer=0.7, crash=0.02, logsync=1)]
    V.walk_check(ctx, "getting done", mixes, 24, 300, ctx.pick(40, 400), seeds=ctx.pick(24, 80), stuck=True)
    # a client that never asks for a sync: the log fills up and must make room by itself
    C = V.Config
    small = [C(weight=700, lens=(20, 60, 90), journal=2), C(weight=500, lens=(0, 20, 40), journal=2), C(weight=1000, keys=5, cache=8, lens=(60, 90), journal=2), C(weight=700, journal=3, lens=(90, 100))]
    lone = dict(load=80, put=9, push=0.02, get=0.5, alone=1)
    V.walk_check(ctx, "getting done without a sync", [lone], 8, 250, ctx.pick(20, 200), pairs=[(c, lone) for c in small], stuck=True, seeds=ctx.pick(8, 40))
    if V.in_child(V.idle_log_sync, V.config(0)) is None:
        msg = "after a sync that was answered, a sync of the log only (handlePopSync with graphSync = false) with nothing to write is never answered: the superblock is rewritten for ever"
        if ctx.listed(KNOWN):
            ctx.known.append(f"{KNOWN}: {msg}")
        else:
            ctx.violate("idle log sync", msg, [{"steps": "put; sync (graph) answered; pushSync; popSync(graphSync=false) x 250, every disk operation answered"}])
    r = V.in_child(V.full_cache_succ, V.big(0))
    if r is None:
        msg = "a scan (handleSucc) that needs a node which is not in the cache while the cache is full never gets done: it neither reads the node nor makes room"
        if ctx.listed(FULL):
            ctx.known.append(f"{FULL}: {msg}")
        else:
            ctx.violate("scan with a full cache", msg, [{"steps": "puts and syncs until the tree is larger than the cache; gets until the cache is full; Succ x 250, every disk operation answered"}])
    elif r:
        ctx.violate("scan with a full cache", str(r[0]), [{"steps": str(r[0])}])
