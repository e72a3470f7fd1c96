"""Writes properties.jsonl and MANIFEST.json from the claims below (run: python3 tools/claims.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "Splinter/src/"
P = []
NA = []


def claim(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              {"property": id, "quick_cmd": f"python3 check.py {id} quick", "thorough_cmd": f"python3 check.py {id} thorough", "technique": technique,
               "level": level, "level_note": note}))


TLC = "TLA+ specification model-checked with TLC; every step of the executed design is checked by TLC to be a step of the specification"
SMNOTE = ("The state machines are executed from the sources by an evaluator of the Verus specification language (mbt/), all label and nondeterministic choices "
          "enumerated within small bounds, and TLC decides inclusion of the resulting graph in the TLA+ specification. Trusts the evaluator; says nothing about sizes beyond the bounds.")
NOTEST = "The existing tests verify marshalling lemmas only; none executes these transition systems, and no finite set of runs covers all interleavings and crash points."

DTLA = "TLA+ specification checked with TLC; runs of the Dafny implementation (executed from the sources) over a simulated disk are checked by TLC to be behaviours of the specification"
DNOTE = ("The compiled part of the Dafny code is executed by an interpreter of Dafny (mbt/dfy*.py) with block, cache and tree sizes reduced so that the machinery works hard; seeded schedules of client calls, disk completions, faults and "
         "crashes (not exhaustive); TLC decides that each recorded run is a behaviour of the TLA+ specification. Trusts the interpreter and its model of the trusted disk interface; the real 8 MB sizes are not run.")
DTEST = "The existing tests parse and resolve Dafny files; none runs the key-value store, and no finite set of runs covers all interleavings of client calls, disk completions, faults and crash points."

exec(open(os.path.join(ROOT, "tools", "claims_list.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [c for _, c in P], "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
         "notes": "Specifications are TLA+ (specs/), decided by TLC; see DESIGN.md. Known and fixed findings: known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
