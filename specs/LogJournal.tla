----------------------------- MODULE LogJournal -----------------------------
(* A journal as its user sees it: a log of messages from sequence number `start`.  *)
(* Appending extends it at the end, truncating removes a prefix, reading for       *)
(* recovery and freezing for a commit return contiguous slices of it, and internal *)
(* reorganisation (marshalling the tail into pages) changes nothing.               *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Starts        \* contents the journal may be opened with

Init0 == Starts
End(x) == x.start + Len(x.msgs)
IsSlice(x, from, ms) ==
  /\ x.start <= from /\ from + Len(ms) <= End(x)
  /\ ms = SubSeq(x.msgs, from - x.start + 1, from - x.start + Len(ms))
DropTo(x, n) == [start |-> n, msgs |-> SubSeq(x.msgs, n - x.start + 1, Len(x.msgs))]

Succ(x, l) ==
  CASE l.op = "tau" -> {x}
    [] l.op = "put" -> IF l.start = End(x) THEN { [x EXCEPT !.msgs = @ \o l.msgs] } ELSE {}
    [] l.op \in {"read", "freeze"} -> IF IsSlice(x, l.start, l.msgs) THEN {x} ELSE {}
    [] l.op = "end" -> IF l.lsn = End(x) THEN {x} ELSE {}
    [] l.op = "discard" -> IF x.start <= l.lsn /\ l.lsn <= End(x) /\ l.require_end = End(x) THEN { DropTo(x, l.lsn) } ELSE {}
    [] OTHER -> {}

Agree(x, v) == v.ok /\ x.start = v.start /\ x.msgs = v.msgs
=============================================================================
