------------------------------ MODULE AllocLog ------------------------------
(* A log journal together with the set `own` of allocation units it accounts for:  *)
(* it takes only units it does not hold, gives back only units it holds, and what   *)
(* it holds changes in no other way.                                                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Starts, AUs
L == INSTANCE LogJournal
Set(q) == {q[k] : k \in 1..Len(q)}
Init0 == { [log |-> y, own |-> o] : y \in Starts, o \in SUBSET AUs }
Succ(x, l) ==
  LET N == L!Succ(x.log, l) IN
  CASE l.op = "tau" -> IF Set(l.allocs) \cap x.own = {} THEN { [x EXCEPT !.own = (@ \cup Set(l.allocs)) \ Set(l.deallocs)] } ELSE {}
    [] l.op = "discard" -> IF Set(l.deallocs) \subseteq x.own THEN { [log |-> y, own |-> x.own \ Set(l.deallocs)] : y \in N } ELSE {}
    [] OTHER -> { [x EXCEPT !.log = y] : y \in N }
Agree(x, v) == L!Agree(x.log, v.log) /\ Set(v.own) = x.own
=============================================================================
