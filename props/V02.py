"""V02: VeriBetrKV after a crash is a version of the map no older than any sync it answered."""
import m_veribetr as V

COMMIT = ("Committer.freeze", "Committer.WriteOutJournal", "Committer.writeOutSuperblockAdvanceLog", "Committer.writeOutSuperblockAdvanceLocation", "Committer.journalReplayOne")


def run(ctx):
    ctx.modelcheck("SyncMap", {"NKeys": 2, "Dflt": 0, "Vals": {1, 2}, "Ids": {1, 2}, "MaxWrites": ctx.pick(3, 5)})
    C = V.Config
    small = [C(weight=1500, keys=8, cache=10, flush=200), C(weight=1000, keys=6, cache=12, flush=150, lens=(0, 3, 20, 30)), C(weight=1500, keys=10, cache=12, flush=200, journal=4)]
    tree = [V.config(i) for i in (0, 1, 4, 5)] + [C(weight=3600, keys=60, cache=12, flush=400, children=4, node=4096, lens=(40, 90))]
    # journals that fill up, wrap around, and are written several blocks at a time
    log = [C(weight=20000, keys=8, cache=10, flush=3000, journal=5, node=32768, lens=(200, 400, 700)), C(weight=12000, keys=20, cache=10, flush=2000, journal=7, node=16384, lens=(100, 300)),
           C(weight=8000, keys=8, cache=10, flush=1000, journal=3, node=16384, lens=(60, 100, 140)), C(weight=8000, keys=16, cache=10, flush=1000, journal=4, node=16384, lens=(148,), prefixes=4)]
    plain = [dict(probe=0.06, crash=0.02, push=2, slow=0.3, slowprobe=0.3), dict(slow=0.1, probe=0.06, crash=0.03, push=3, graph=0.8, land=0.8, ack=0.8)]
    # syncs of the whole tree while it is being changed
    busy = [dict(load=60, put=8, push=1.5, graph=1, pop=5, land=0.8, ack=0.5, probe=0.03, crash=0.01, syncprobe=0.1, slowprobe=0.2), dict(load=40, syncprobe=0.1, slow=0.1, probe=0.05, crash=0.02, push=2, graph=0.6)]
    logs = [dict(put=12, get=1, succ=0.3, push=2, graph=0.15, probe=0.05, crash=0.02, land=0.8, slow=0.5), dict(slow=0.5, put=20, get=0.5, succ=0.2, push=0.15, graph=0.3, pop=0.5, probe=0.04, crash=0.005)]
    # long messages, so that journal writes wrap around its end and become two writes
    wrap = [C(weight=30000, keys=8, cache=10, flush=5000, journal=j, node=65536, lens=l) for j, l in ((4, (700, 900)), (3, (300, 700)), (5, (300, 700)), (4, (450, 500)))]
    wraps = [dict(put=20, get=0.5, succ=0.2, push=1, graph=0.4, pop=6, land=4, ack=4, slow=0.5, slowprobe=2), dict(put=20, get=0.5, succ=0.2, push=1.5, graph=0.4, pop=3, slow=0.5, slowprobe=2, probe=0.03, crash=0.003)]
    # trees larger than the cache, with nodes written for want of room while a sync of the tree is going on
    large = [V.big(0), V.big(1), V.big(2), V.config(3)]
    larges = [dict(load=60, put=12, push=2, graph=1, pop=0.5, land=8, ack=8, answer=8, probe=0.01, crash=0.003)]
    pairs = [(c, m) for cs, ms in ((small, plain), (tree, busy), (log, logs), (wrap, wraps), (large, larges)) for c in cs for m in ms]
    V.walk_check(ctx, "crashes and syncs", None, len(pairs), 300, ctx.pick(40, 400), pairs=pairs, nkeys=160, stuck=True, seeds=ctx.pick(24, 200), need=COMMIT)
