"""Exploration of executable code models, conformance against the TLA+ specifications with TLC, and result reporting."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.setrecursionlimit(20000)


class ToolError(Exception):
    pass


class Violation(Exception):
    pass


# ---------------------------------------------------------------- exploration

class Graph:
    """States reached in the code, with labelled steps between them."""

    def __init__(self):
        self.states = []
        self.index = {}
        self.init = []
        self.edges = []          # per node: list of (label, step description, dst) or None when not expanded
        self.complete = True

    def add(self, s):
        i = self.index.get(s)
        if i is None:
            i = self.index[s] = len(self.states)
            self.states.append(s)
            self.edges.append(None)
        return i

    def nedges(self):
        return sum(len(e) for e in self.edges if e)


_expand = None


class Limited:
    """Bounds the processor time of one evaluation: after `secs` the evaluation fails like an undefined expression (code such as a page
    that points at itself makes a recursive function of the code run forever), and again every second until it gives up."""
    on = True

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        import rt

        def hit(*a):
            if self.on:
                raise rt.Undef("evaluation does not end")
        self.old = signal.signal(signal.SIGVTALRM, hit)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.secs, 1)

    def __exit__(self, *a):
        self.on = False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0, 0)
        signal.signal(signal.SIGVTALRM, self.old)


EXPAND_SECS = 15
VIEW_SECS = 8


_broken = None


def _expand1(f, s):
    import rt
    try:
        with Limited(EXPAND_SECS):
            return list(f(s))
    except (KeyError, IndexError, AttributeError, TypeError, ValueError):
        if _broken is not None and _broken(s):
            return []       # the state is one the view reports as broken already
        raise
    except rt.Undef as e:
        if "does not end" not in str(e):
            raise
        return None


def _work(states):
    return [_expand1(_expand, s) for s in states]


def explore(expand, roots, max_nodes=20000, beam=None, max_depth=60, max_secs=60, seed=1, workers=8, strata=None, broken=None):
    """Breadth-first; strata(state) names the kind of a state, for thinning; a level wider than `beam` is thinned to a seeded sample of that size, so that exploration goes deep.
    expand(state) yields (label, step, state)."""
    global _expand, _broken
    _broken = broken
    g = Graph()
    rnd = random.Random(seed)
    t0 = time.time()
    frontier = []
    for r in roots:
        i = g.add(r)
        if i not in g.init:
            g.init.append(i)
            frontier.append(i)
    depth = 0
    pool = None
    while frontier and depth < max_depth:
        if beam is not None and len(frontier) > beam:
            g.complete = False
            if strata is None:
                frontier = sorted(rnd.sample(frontier, beam))
            else:       # evenly from the kinds of states present
                kinds = {}
                for i in frontier:
                    kinds.setdefault(strata(g.states[i]), []).append(i)
                for v in kinds.values():
                    rnd.shuffle(v)
                order = [kinds[k] for k in sorted(kinds, key=repr)]
                frontier = []
                while len(frontier) < beam:
                    for v in order:
                        if v and len(frontier) < beam:
                            frontier.append(v.pop())
                frontier.sort()
        if len(g.states) > max_nodes or time.time() - t0 > max_secs:
            g.complete = False
            break
        states = [g.states[i] for i in frontier]
        if len(states) >= 32 and workers > 1:
            if pool is None:
                _expand = expand
                pool = mp.get_context("fork").Pool(workers)
            n = max(1, min(64, len(states) // (workers * 4)))
            chunks = [states[a:a + n] for a in range(0, len(states), n)]
            res = []
            it = pool.imap(_work, chunks)
            while len(res) < len(states):
                try:
                    res += it.next(timeout=max(1, t0 + 3 * max_secs + 10 - time.time()))
                except mp.TimeoutError:
                    break
        else:
            res = [_expand1(expand, s) for s in states]
        if len(res) < len(states) or None in res:
            g.complete = False
        nxt = []
        for i, outs in zip(frontier, res):
            if outs is None:
                continue
            es = []
            for lab, step, s2 in outs:
                n = len(g.states)
                j = g.add(s2)
                if j == n:
                    nxt.append(j)
                es.append((lab, step, j))
            g.edges[i] = es
        frontier = nxt
        depth += 1
    if pool is not None:
        pool.terminate()
        pool.join()
    if frontier:
        g.complete = False
    g.depth = depth
    return g


# ---------------------------------------------------------------- TLC

def tla(x):
    """A Python value as a TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(repr(x))


def run_tlc(scratch, module, cfg, workers=8, timeout=600, heap="6g", extra=(), deadlock=False):
    """Runs TLC on scratch/module.tla; returns (ok, output).  ok is None when TLC itself failed."""
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    cf = os.path.join(scratch, module + ".cfg")
    with open(cf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={scratch}", "-cp", TLAJAR + ":" + SPECS, f"-DTLA-Library={SPECS}",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    if not deadlock:
        cmd += ["-deadlock"]
    cmd += list(extra) + ["-config", cf, os.path.join(scratch, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = None
    for m in re.finditer(r"(\d+) states generated.*?, (\d+) distinct states found", out):
        pass
    stats = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if "Model checking completed. No error has been found." in out:
        return True, out, stats
    if re.search(r"Error: (Invariant|Action property|Temporal properties|Property) ?.* (is|was|were) violated", out) or "is violated." in out:
        return False, out, stats
    raise ToolError(f"TLC failed on {module}:\n" + out[-4000:])


# ---------------------------------------------------------------- checks

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.impl_states = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.notes = []
        self.exhaustive = None
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- specification model checking
    def modelcheck(self, spec, consts=None, invariants=("Inv",), props=(), constraint=None, name=None, timeout=600, action_constraint=None, mod=None):
        """Checks the specification itself: spec is a module with MCInit, MCNext."""
        name = name or f"Run{len(self.parts)}_{spec}"
        mod = mod or spec + "_MC"
        consts = consts or {}
        body = [f"---- MODULE {name} ----", f"EXTENDS {mod}"]
        cfg = ["INIT MCInit", "NEXT MCNext"]
        for k, v in consts.items():
            body.append(f"const_{k} == {v if isinstance(v, str) else tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        body.append("====")
        cfg += [f"INVARIANT {i}" for i in invariants] + [f"PROPERTY {p}" for p in props]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        with open(os.path.join(self.scratch, name + ".tla"), "w") as f:
            f.write("\n".join(body) + "\n")
        ok, out, st = run_tlc(self.scratch, name, "\n".join(cfg) + "\n", timeout=timeout)
        if ok is not True:
            raise ToolError(f"the specification {spec} violates its own properties:\n" + out[-3000:])
        self.states += st[1]
        self.transitions += st[0]
        self.parts.append({"kind": "specification model check", "module": spec, "generated": st[0], "distinct": st[1]})
        self.log(f"spec {spec}: {st[1]} distinct states, {st[0]} generated, invariants {list(invariants) + list(props)} hold")

    # -- conformance of an explored graph
    def conform(self, g, spec, what, label=lambda l: l, view=None, consts=None, describe=repr, timeout=700, need=(), eview=None):
        """Checks with TLC that every path of g from its initial states is a behaviour of the specification module:
        the module gives Init0, Succ(s, l) and Agree(s, v) (v: the node's view)."""
        labels, lidx = [], {}
        out = []
        counts = {}
        nview = self.eviews(g, eview) if eview else [view(s) if view else 0 for s in g.states]
        ne = 0
        for i, es in enumerate(g.edges):
            row = []
            seen = set()
            for lab, step, j in es or ():
                if nview[j] is None:
                    continue
                l = label(lab)
                k = json.dumps(l, sort_keys=True)
                if k not in lidx:
                    lidx[k] = len(labels)
                    labels.append(l)
                counts[l["op"]] = counts.get(l["op"], 0) + 1
                ne += 1
                key = (lidx[k], j)
                if key not in seen and not (j == i and len(l) == 1 and l["op"] == "tau"):
                    seen.add(key)
                    row.append([lidx[k] + 1, j + 1])
            out.append(row)
        for n in need:
            if not counts.get(n):
                self.notes.append(f"{what}: no step labelled {n} was reached")
        views, vidx, vn = [], {}, []
        for v in nview:
            if v is None:
                vn.append(1)
                continue
            k = json.dumps(v, sort_keys=True)
            if k not in vidx:
                vidx[k] = len(views)
                views.append(v)
            vn.append(vidx[k] + 1)
        mod = f"Conf_{len(self.parts)}"
        path = os.path.join(self.scratch, mod + ".json")
        with open(path, "w") as f:
            json.dump({"init": [i + 1 for i in g.init], "labels": labels, "out": out, "views": views, "vn": vn}, f)
        consts = consts or {}
        cfg = ["INIT CInit", "NEXT CNext", "VIEW CView", "INVARIANT Explained"]
        body = [f"---- MODULE {mod} ----", f"EXTENDS {spec}, Json, TLC", f'G == JsonDeserialize("{path}")', "Out == G.out", "Labels_ == G.labels",
                "Views_ == G.views", "Vn == G.vn", "VARIABLES node, poss, via",
                "VOf(n) == Views_[Vn[n]]",
                "CInit == \\E i \\in 1..Len(G.init) : node = G.init[i] /\\ via = 0 /\\ poss = {x \\in Init0 : Agree(x, VOf(G.init[i]))}",
                "CNext == \\E k \\in 1..Len(Out[node]) : LET e == Out[node][k] IN "
                "/\\ poss # {} /\\ node' = e[2] /\\ via' = e[1] "
                "/\\ poss' = {y \\in UNION {Succ(x, Labels_[e[1]]) : x \\in poss} : Agree(y, VOf(e[2]))}",
                "CView == <<node, poss>>", "Explained == poss # {}"]
        for k, v in consts.items():
            body.append(f"const_{k} == {v if isinstance(v, str) else tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        body.append("====")
        with open(os.path.join(self.scratch, mod + ".tla"), "w") as f:
            f.write("\n".join(body) + "\n")
        ok, txt, st = run_tlc(self.scratch, mod, "\n".join(cfg) + "\n", timeout=timeout)
        self.states += st[1]
        self.transitions += st[0]
        self.traces += ne
        self.impl_states += len(g.states)
        self.parts.append({"kind": "conformance of executed code against the specification", "what": what, "spec": spec, "code_states": len(g.states),
                           "code_steps": ne, "steps_by_label": counts, "depth": getattr(g, "depth", None), "closed": g.complete, "product_states": st[1]})
        self.exhaustive = g.complete if self.exhaustive is None else (self.exhaustive and g.complete)
        self.log(f"{what}: {len(g.states)} code states, {ne} code steps {counts}{' (closed)' if g.complete else ''}; TLC product {st[1]} states: "
                 + ("conforms" if ok else "DOES NOT CONFORM"))
        self.sample(g, label, view, what)
        if ok:
            return True
        steps = [(int(a), int(b)) for a, b in zip(re.findall(r"/\\ node = (\d+)", txt), re.findall(r"/\\ via = (\d+)", txt))]
        trace = []
        for n, (node, via) in enumerate(steps):
            ent = {"state": describe(g.states[node - 1])[:6000], "view": nview[node - 1]}
            if via:
                prev = steps[n - 1][0] - 1
                ent["label"] = labels[via - 1]
                for lab, step, j in g.edges[prev] or ():
                    if j == node - 1 and label(lab) == labels[via - 1]:
                        ent["code_label"] = repr(lab)[:2000]
                        ent["code_step"] = repr(step)[:3000]
                        break
            trace.append(ent)
        last = trace[-1] if trace else {}
        self.violate(what, f"the code takes step {json.dumps(last.get('label'))} to view {json.dumps(last.get('view'))[:300]}, which the specification {spec} does not allow after this history",
                     trace)
        return False

    def eviews(self, g, eview):
        out = []
        late = None
        for s, es in zip(g.states, g.edges):
            if late is not None and time.time() > late:
                # several views did not end: those found are enough, the rest is not looked at
                out.append(None)
                continue
            t = time.process_time()
            with Limited(VIEW_SECS):
                out.append(eview(s, [e for e in es] if es is not None else None))
            if time.process_time() - t > VIEW_SECS and late is None:
                late = time.time() + 30
        return out

    def progress(self, g, what, goal, must=lambda s: True, label=lambda l: l, timeout=600, exclude=lambda l: False):
        """From every state satisfying `must`, some explored path takes a step with goal(label) -- or leaves the explored part."""
        n = len(g.states)
        inn = [[] for _ in range(n)]
        good = set()
        for i, es in enumerate(g.edges):
            if es is None:
                good.add(i)
                continue
            for lab, step, j in es:
                if goal(label(lab), g.states[i]):
                    good.add(i)
                if i != j and not exclude(label(lab)):
                    inn[j].append(i + 1)
        need = [i for i in range(n) if must(g.states[i])]
        # Backwards-reachable set, restricted for counting to what TLC must visit.
        seen = set(good)
        todo = list(good)
        while todo:
            j = todo.pop()
            for i in inn[j]:
                if i - 1 not in seen:
                    seen.add(i - 1)
                    todo.append(i - 1)
        bad = [i for i in need if i not in seen]
        expect = n - sum(1 for i in range(n) if i not in seen and not must(g.states[i]))
        mod = f"Prog_{len(self.parts)}"
        path = os.path.join(self.scratch, mod + ".json")
        with open(path, "w") as f:
            json.dump({"in": [sorted(set(x)) for x in inn], "goal": sorted(i + 1 for i in good), "count": expect}, f)
        with open(os.path.join(self.scratch, mod + ".tla"), "w") as f:
            f.write(f'---- MODULE {mod} ----\nEXTENDS Progress\nfile == "{path}"\n====\n')
        post = False
        try:
            ok, txt, st = run_tlc(self.scratch, mod, "INIT Init\nNEXT Next\nCONSTANT File <- file\nPOSTCONDITION AllCovered\n", timeout=timeout)
        except ToolError as e:
            if "AllCovered" not in str(e) and "ostcondition" not in str(e):
                raise
            ok, st = False, (0, 0)
        self.states += st[1]
        self.transitions += st[0]
        self.traces += len(need)
        self.parts.append({"kind": "progress from every reached code state", "what": what, "code_states": n, "must": len(need), "goal_states": len(good), "closed": g.complete})
        self.log(f"{what}: {len(need)} of {n} code states must be able to progress: {'all can' if ok else str(len(bad)) + ' cannot'}{' (closed)' if g.complete else ''}")
        if ok != (not bad):
            raise ToolError(f"progress computation disagrees with TLC ({ok}, {len(bad)})")
        if ok:
            return True
        # shortest path to a stuck state
        prev = {i: None for i in g.init}
        q = list(g.init)
        badset = set(bad)
        tgt = None
        for i in q:
            if i in badset:
                tgt = i
                break
            for lab, step, j in g.edges[i] or ():
                if j not in prev:
                    prev[j] = (i, lab, step)
                    q.append(j)
        trace = []
        while tgt is not None:
            p = prev[tgt]
            trace.append({"state": repr(g.states[tgt])[:6000], "label": label(p[1]) if p else None, "code_step": repr(p[2])[:2000] if p else None})
            tgt = p[0] if p else None
        trace.reverse()
        self.violate(what, f"the last state of this history can never reach the goal ({len(bad)} such states)", trace)
        return False

    def sample(self, g, label, view, what):
        if len(self.samples) >= 6:
            return
        rnd = random.Random(self.seed + len(self.samples))
        n = g.init[0] if g.init else None
        tr = []
        for _ in range(14):
            es = g.edges[n] if n is not None else None
            es = [e for e in es or () if e[2] != n] or es
            if not es:
                break
            lab, step, n = rnd.choice(es)
            tr.append(label(lab))
        self.samples.append({"what": what, "trace": tr})

    def listed(self, key):
        """Is the finding `key` of this property in the committed list of known findings?"""
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            return any(l.startswith(f"KNOWN-FINDING: property={self.prop} {key}:") for l in f)

    def violate(self, what, msg, trace):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "message": msg, "trace": trace}, f, indent=1, default=repr)
        self.violations.append((what, msg, path))
        self.log("VIOLATION:", what, "--", msg[:1000])

    @staticmethod
    def short(x):
        """x with its long lists cut"""
        if isinstance(x, dict):
            return {k: Ctx.short(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [Ctx.short(v) for v in x[:40]] + ([f"... {len(x) - 40} more"] if len(x) > 40 else [])
        return x[:2000] if isinstance(x, str) else x

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "impl_states": self.impl_states, "samples": self.short(self.samples), "parts": self.parts, "notes": self.notes,
                           "exhaustive": bool(self.exhaustive),
                           "rule": "states/transitions: TLC totals over the specification model checks and the product of code behaviour and specification; "
                                   "traces_validated_against_impl: steps executed in the code under test whose every occurrence was checked against the specification"},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)


def main(prop, run):
    ctx = Ctx(prop)
    rc = 2
    try:
        try:
            run(ctx)
        except Exception:
            if not ctx.violations:
                raise
            traceback.print_exc()
        for n in ctx.notes:
            ctx.log("note:", n)
        ctx.finish()
        for k in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        if ctx.violations:
            for what, msg, path in ctx.violations:
                print(f"VIOLATION property={prop} replay={path}")
            rc = 1
        else:
            ctx.log("ok")
            rc = 0
    except ToolError as e:
        print("check error:", e)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
