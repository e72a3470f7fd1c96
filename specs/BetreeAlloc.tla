----------------------------- MODULE BetreeAlloc -----------------------------
(* A B-epsilon tree that owns its space: nodes and branches live in allocation      *)
(* units, branches are built in units of their own and linked in when sealed, and    *)
(* compactions hold on to their inputs.  On top of BetreeMap, a step may only take    *)
(* units it does not hold and give back units it holds; the units held are exactly     *)
(* those of the tree, of the inputs of running compactions, and of branches being      *)
(* built, each unit with one purpose; and reference counts and branch summaries         *)
(* are those found in the pages.  A sealed branch with the buffered writes can be       *)
(* linked in, and a finished compaction can be installed.                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Starts            \* [map |-> ..., end |-> ..., held |-> <<units>>]
M == INSTANCE BetreeMap WITH Starts <- {}
SetOf(s) == { s[i] : i \in 1..Len(s) }
Init0 == { [kv |-> [map |-> s.map, end |-> s.end], held |-> SetOf(s.held)] : s \in Starts }

Succ(x, l) ==
  IF l.op = "internal"
  THEN IF SetOf(l.allocs) \cap x.held = {} /\ SetOf(l.deallocs) \subseteq x.held
       THEN { [x EXCEPT !.held = (@ \ SetOf(l.deallocs)) \cup SetOf(l.allocs)] } ELSE {}
  ELSE { [x EXCEPT !.kv = y] : y \in M!Succ(x.kv, l) }

Agree(x, v) == /\ M!Agree(x.kv, v) /\ v.stored /\ v.likes = v.refs
               /\ SetOf(v.held) = x.held /\ ~v.garbage
               /\ (v.expanded /\ v.compactable) => v.compacts
=============================================================================
