---------------------------- MODULE CrashJournal ----------------------------
(* A journal with three copies: the persistent one that a crash returns to, at     *)
(* most one in-flight copy being committed, and the in-memory one that is appended *)
(* to.  A copy is a contiguous log [start, msgs].  `own` is the set of allocation  *)
(* units the in-memory journal accounts for: it may only take units nobody uses,   *)
(* and may only give back units that no live record of any copy needs.             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT AUs

Empty == [start |-> 0, msgs |-> <<>>]
Init0 == { [p |-> Empty, i |-> Empty, e |-> Empty, up |-> FALSE, fl |-> FALSE, own |-> {}] }
Set(q) == {q[k] : k \in 1..Len(q)}
End(x) == x.start + Len(x.msgs)
IsSlice(x, from, ms) ==
  /\ x.start <= from /\ from + Len(ms) <= End(x)
  /\ ms = SubSeq(x.msgs, from - x.start + 1, from - x.start + Len(ms))
DropTo(x, n) == [start |-> n, msgs |-> SubSeq(x.msgs, n - x.start + 1, Len(x.msgs))]
Slice(x, a, b) == [start |-> a, msgs |-> SubSeq(x.msgs, a - x.start + 1, b - x.start)]

Succ(x, l) ==
  CASE l.op = "load" -> IF x.up THEN {} ELSE { [x EXCEPT !.up = TRUE, !.e = x.p, !.own = o] : o \in SUBSET AUs }
    [] l.op = "read" -> IF x.up /\ IsSlice(x.e, l.start, l.msgs) THEN {x} ELSE {}
    [] l.op = "end" -> IF x.up /\ l.lsn = End(x.e) THEN {x} ELSE {}
    [] l.op = "put" -> IF x.up /\ l.start = End(x.e) THEN { [x EXCEPT !.e.msgs = @ \o l.msgs] } ELSE {}
    [] l.op = "tau" -> IF x.up /\ Set(l.allocs) \cap x.own = {} THEN { [x EXCEPT !.own = (@ \cup Set(l.allocs)) \ Set(l.deallocs)] } ELSE {}
    [] l.op = "persist" -> IF l.lsn <= End(x.p) THEN {x} ELSE {}
    [] l.op = "cstart" -> IF x.up /\ ~x.fl /\ l.bdy <= l.maxlsn /\ x.e.start <= l.bdy /\ l.bdy <= End(x.e)
                          THEN { [x EXCEPT !.fl = TRUE, !.i = Slice(x.e, l.bdy, n)] : n \in {m \in l.bdy..End(x.e) : m >= End(x.p)} }
                          ELSE {}
    [] l.op = "ccomplete" -> IF x.up /\ x.fl /\ l.require_end = End(x.e) /\ Set(l.deallocs) \subseteq x.own
                             THEN { [x EXCEPT !.p = x.i, !.i = Empty, !.fl = FALSE, !.e = DropTo(x.e, x.i.start), !.own = @ \ Set(l.deallocs)] }
                             ELSE {}
    [] l.op = "crash" -> { [x EXCEPT !.up = FALSE, !.fl = FALSE, !.e = Empty, !.i = Empty, !.own = {},
                                     !.p = IF l.keep /\ x.fl THEN x.i ELSE x.p] }
    [] OTHER -> {}

Log(v, x) == v.ok /\ v.start = x.start /\ v.msgs = x.msgs
Agree(x, v) ==
  /\ Log(v.p, x.p) /\ Log(v.i, x.i) /\ Log(v.e, x.e)
  /\ v.up = x.up /\ v.fl = x.fl
  /\ Set(v.own) = x.own
  /\ x.up => (Set(v.paus) \cup Set(v.iaus)) \subseteq x.own
=============================================================================
