"""Builds the marshalling code of the current tree into a driver and runs it."""
import json
import os
import subprocess
import harness

V = "/opt/veriftools/verus"


def build(ctx):
    d = os.path.join(ctx.scratch, "marshal")
    os.makedirs(d)
    src = os.path.join(harness.REPO, "Splinter/src")
    for n in ("marshalling", "marshalling.rs", "spec", "betree"):
        os.symlink(os.path.join(src, n), os.path.join(d, n))
    for n in ("main.rs", "drv.rs"):
        with open(os.path.join(harness.VERIF, "drivers/marshal", n)) as f, open(os.path.join(d, n), "w") as g:
            g.write(f.read())
    exe = os.path.join(d, "drv")
    p = subprocess.run(["verus", "--extern", f"builtin={V}/libverus_builtin.rlib", "--extern", f"builtin_macros={V}/libverus_builtin_macros.so", "--extern",
                        f"state_machines_macros={V}/libverus_state_machines_macros.so", "--no-verify", "--compile", "-o", exe, os.path.join(d, "main.rs")],
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if p.returncode != 0 or not os.path.exists(exe):
        raise harness.ToolError("the driver does not build:\n" + p.stdout[-3000:])
    return exe


def run(exe, mode, scale, seed):
    p = subprocess.run([exe, mode, str(scale), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600,
                       preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (4 << 30, 4 << 30)))
    out = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}")]
    if p.returncode != 0:
        # The code under test brought the whole process down (say, by asking for absurd amounts of memory).
        out.append({"op": "died", "rc": str(p.returncode), "last": json.dumps(out[-1])[:500] if out else ""})
    return out


def cases(ctx, recs, what):
    """One initial state; each record is one step from it."""
    g = harness.Graph()
    g.add("ready")
    g.init = [0]
    g.edges[0] = [(r, r, 0) for r in recs]
    g.depth = 1
    g.complete = True
    ctx.conform(g, "MarshalCases", what, label=lambda l: l, view=lambda s: 0)


def history(ctx, h):
    g = harness.Graph()
    for i in range(len(h["nodes"])):
        g.add(i)
    g.init = h["init"]
    for a, l, b in h["edges"]:
        if g.edges[a] is None:
            g.edges[a] = []
        g.edges[a].append((l, l, b))
    for a in range(h["expanded"]):
        g.edges[a] = g.edges[a] or []
    g.complete = h["expanded"] == len(h["nodes"])
    g.depth = None
    f = h["f"]
    starts = []
    for i in g.init:
        o = h["nodes"][i]
        if "len" not in o["obs"]:
            continue
        n = 252 if "limits" in h["name"] else 0
        if f["t"] == "var":
            x = {"len": 0, "slots": [], "out": o["out"]}
        else:
            # Slots that were not probed hold unknown values; they are never looked at.
            got = {e["i"]: e["v"][0] for e in o["obs"]["get"] if e["v"]}
            cap = len(o["whole"][0]) if f["t"] == "uni" and o["whole"] else (f["total"] - f["lw"]) // f["e"]["w"] if f["t"] == "res" else 0
            whole = o["whole"][0] if o["whole"] and isinstance(o["whole"][0], list) else []
            x = {"len": cap if f["t"] == "uni" else n, "slots": [got.get(k, whole[k] if k < len(whole) else [0]) for k in range(cap)], "out": o["out"]}
        starts.append(x)
    ctx.conform(g, "SeqStore", h["name"], label=lambda l: l, view=lambda s: h["nodes"][s],
                consts={"F": f, "Vals": h["vals"], "Probes": h["probes"], "Sizes": h["sizes"], "Starts": "{" + ", ".join(harness.tla(x) for x in starts) + "}"})
