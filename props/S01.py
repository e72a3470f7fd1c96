"""The system model: the key-value program (ConcreteProgramModel, AtomicState) over the asynchronous disk."""
import os
import harness
import smexec
from m_system import System

KNOWN = "reply-to-unrequested-sync"


def run(ctx):
    for cfg in [dict(), dict(clients=2, keys=1)] + ([dict(clients=2, ids=6, writes=3)] if ctx.thorough else []):
        m = System(**cfg)
        g = harness.explore(m.model.expand, m.model.inits(), max_nodes=ctx.pick(16000, 150000), beam=ctx.pick(1500, 8000), max_depth=80, max_secs=ctx.pick(40, 400), seed=ctx.seed, strata=m.kind)
        ctx.notes += [f"transition {k} not executable: {v}" for k, v in m.model.skipped.items()]
        w = f"system model, {len(m.keys)} keys, {m.writes} writes, {m.ids} requests, {m.clients} outstanding"
        ctx.conform(g, "CrashKV", w, label=m.label, need=("execute", "reply", "replysync", "land", "crash"), consts={"Keys": set(range(len(m.keys))), "Dflt": 0})
        quiet = dict(label=m.label, exclude=lambda l: l["op"] == "crash")
        ctx.progress(g, "the program recovers: " + w, lambda l, s: s.f_program.f_state.f_recovery_state._variant == "RecoveryComplete", **quiet)
        ctx.progress(g, "a received request executes: " + w, lambda l, s: l["op"] == "execute", must=m.executable, **quiet)
        ctx.progress(g, "an accepted sync is answered: " + w, lambda l, s: l["op"] == "replysync",
                     must=lambda s: s.f_program.f_state.f_recovery_state._variant == "RecoveryComplete" and len(s.f_program.f_state.f_sync_req_map.d) > 0, **quiet)
    # A reply to a sync request that was never made.
    for s in g.states:
        if s.f_program.f_state.f_recovery_state._variant != "RecoveryComplete":
            continue
        i = 9
        l = m.L["ProgramUIOp"](m.UO["DeliverSyncReply"](i))
        if list(smexec.run_transition(m.c, m.model.sm, m.model.sm.transitions["program_deliver_sync_reply"], s, l, None, m.hint)):
            msg = "SystemModel program_deliver_sync_reply / AtomicState::deliver_sync_reply accept a reply to a sync request that was never made"
            if ctx.listed(KNOWN):
                ctx.known.append(f"{KNOWN}: {msg}")
            else:
                ctx.violate("sync replies", msg, [{"state": repr(s)[:4000], "label": repr(l)}])
            break
