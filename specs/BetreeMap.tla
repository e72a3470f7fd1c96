------------------------------ MODULE BetreeMap ------------------------------
(* The map as the user of a B-epsilon tree sees it: keys to values, with the       *)
(* sequence number of the next write.  Puts are applied in order; a definition      *)
(* replaces the value and an update leaves it (deltas are placeholders here).       *)
(* Queries answer the current value of every key of the domain and no other; a      *)
(* frozen image carries the whole map; moving buffers down the tree, splitting,     *)
(* growing and compacting change nothing.  Buffered writes can always be moved to the  *)
(* tree, after which an image of it can be frozen.                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Starts            \* contents the tree may be opened with: [map |-> <<value of key 0, ...>>, end |-> lsn]

Init0 == Starts
RECURSIVE Apply(_, _)
Apply(m, ps) == IF ps = <<>> THEN m
                ELSE LET p == Head(ps) IN
                     Apply(IF p.kind = "def" THEN [m EXCEPT ![p.k + 1] = p.v] ELSE m, Tail(ps))

Succ(x, l) ==
  CASE l.op = "tau" -> {x}
    [] l.op = "put" -> IF l.start = x.end THEN { [map |-> Apply(x.map, l.puts), end |-> x.end + Len(l.puts)] } ELSE {}
    [] l.op = "query" -> IF l.lsn = x.end /\ l.v = x.map[l.k + 1] THEN {x} ELSE {}
    [] l.op = "freeze" -> IF l.ok /\ l.map = x.map /\ l.lsn = x.end THEN {x} ELSE {}
    [] OTHER -> {}

(* v: what the tree holds, read off its nodes, and the values it is prepared to answer for each key *)
Agree(x, v) == /\ v.ok /\ x.map = v.map /\ x.end = v.end
               /\ v.expanded => v.answers = [k \in 1..Len(x.map) |-> <<x.map[k]>>]
               /\ (v.expanded /\ v.drained) => v.frozen
               /\ (v.expanded /\ ~v.full) => v.accepts
               /\ (v.expanded /\ ~v.bounded) => (v.drained \/ v.flushable)
=============================================================================
