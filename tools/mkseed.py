"""mkseed.py ID PROPERTY FILE OLD NEW DEMO.py NEEDS BREAKS: makes /verif/seeded/ID (patch, demo, evaluator snapshot) from a textual change; OLD must be unique."""
import difflib, json, os, subprocess, sys, zipfile, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, demo, needs, breaks, snapshot=True, files=()):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, old, rep in edits:
        t = new.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        new[f] = t.replace(old, rep)
    diff = ""
    for f, t in new.items():
        diff += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(open("/repo/" + f).read().splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if snapshot:
        z = zipfile.ZipFile(os.path.join(d, "mbt.zip"), "w", zipfile.ZIP_DEFLATED)
        for n in sorted(os.listdir(ROOT + "/mbt")):
            if n.endswith(".py"):
                zi = zipfile.ZipInfo(n, (2026, 1, 1, 0, 0, 0)); zi.compress_type = zipfile.ZIP_DEFLATED
                z.writestr(zi, open(ROOT + "/mbt/" + n).read())
        z.close()
        open(os.path.join(d, "demo.py"), "w").write(PRE + demo)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 VERIF_REPO="$PWD"\nexec python3 "$(dirname "$0")/demo.py"\n')
    else:
        for n, t in files:
            open(os.path.join(d, n), "w").write(t)
        open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


PRE = '''import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mbt.zip"))


def walk(model, label, states, steps):
    """The states reachable by following the steps; a step is a predicate on the label's dictionary, or a list of them
    (each of which may be taken any number of times, in any order)."""
    cur = list(states)
    for st in steps:
        if isinstance(st, list):
            seen, todo = set(cur), list(cur)
            while todo:
                s = todo.pop()
                for l, _, p in model.expand(s):
                    if p not in seen and any(f(label(l)) for f in st):
                        seen.add(p); todo.append(p)
            cur = list(seen)
        else:
            nxt = []
            for s in cur:
                for l, _, p in model.expand(s):
                    if st(label(l)) and p not in nxt:
                        nxt.append(p)
            cur = nxt
    return cur


def op(name, **kw):
    return lambda d: d["op"] == name and all(d.get(k) == v for k, v in kw.items())


def check(ok, what):
    print("ok" if ok else "FAILED", what)
    if not ok:
        sys.exit(1)

'''
