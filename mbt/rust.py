"""Helpers shared by the checks that execute the Rust/Verus state machines."""
import harness
import smexec
from rt import Data, FMap, FSet, LVar, MSet, Missing, Seq, TypeDef, Unbound, Undef, tojson
from verus_eval import Crate


def crate(dirs, natmax=3, **kw):
    c = Crate(root=harness.REPO + "/Splinter/src", dirs=dirs, natmax=natmax, **kw)
    return c


def variants(c, path):
    return c.get(path).variants


class Model:
    """A state machine with a label generator: expand(state) yields (label, step, post)."""

    def __init__(self, c, sm, labels, hint=None, only=None):
        self.c, self.sm, self.labels, self.hint, self.only = c, c.sm(sm) if isinstance(sm, str) else sm, labels, hint, only
        c.hint = hint
        self.skipped = {}

    def inits(self, cfg=None):
        return [p for _, p in smexec.initial(self.c, self.sm, cfg, hint=self.hint)]

    def expand(self, s):
        seen = set()
        try:
            labels = list(self.labels(s))
        except Undef as e:
            self.skipped["labels"] = f"state without candidate labels: {e}"[:200]
            labels = []
        for l in labels:
            for tn in self.sm.transitions:
                if self.only is not None and tn not in self.only:
                    continue
                try:
                    for l2, st, p in smexec.run_transition(self.c, self.sm, self.sm.transitions[tn], s, l, None, self.hint):
                        k = (l2, p)
                        if k not in seen:
                            seen.add(k)
                            yield l2, st, p
                except (Missing, Unbound) as e:
                    self.skipped[tn] = str(e)[:200]
                    if harness.os.environ.get("VERIF_STRICT"):
                        raise


def tyname(ty):
    """The last path component of a type (AST or TypeDef)."""
    if isinstance(ty, TypeDef):
        return ty.name
    if isinstance(ty, tuple) and ty[0] == "ty":
        return ty[1][-1]
    return None
