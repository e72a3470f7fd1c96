------------------------------ MODULE BranchMap ------------------------------
(* A B+tree branch: a sorted map from keys to messages built by inserting,       *)
(* appending, growing and splitting.  A branch under construction also owns       *)
(* allocation units: it takes pages only from those it was given, and when it is    *)
(* sealed it keeps exactly those that hold its pages, records them in its summary,  *)
(* and gives the others back.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Starts        \* <<[map |-> ..., units |-> set, sealed |-> BOOLEAN]>>
NoMsg == "-"

Init0 == { [map |-> s.map, units |-> { s.units[i] : i \in 1..Len(s.units) }, sealed |-> s.sealed] : s \in Starts }
RECURSIVE Put(_, _, _)
Put(m, ks, ms) == IF ks = <<>> THEN m ELSE Put([m EXCEPT ![Head(ks) + 1] = Head(ms)], Tail(ks), Tail(ms))
Increasing(ks) == \A i \in 1..Len(ks) : i < Len(ks) => ks[i] < ks[i + 1]
SetOf(s) == { s[i] : i \in 1..Len(s) }

Succ(x, l) ==
  CASE l.op = "reshape" -> IF x.sealed THEN {} ELSE {x}
    [] l.op = "insert" -> IF x.sealed THEN {} ELSE { [x EXCEPT !.map = Put(x.map, l.ks, l.ms)] }
    [] l.op = "append" -> IF x.sealed \/ ~Increasing(l.ks) \/ Len(l.ks) # Len(l.ms) \/ (\E i \in 1..Len(l.ks) : x.map[l.ks[i] + 1] # NoMsg) THEN {}
                          ELSE { [x EXCEPT !.map = Put(x.map, l.ks, l.ms)] }
    [] l.op = "fill" -> IF x.sealed \/ SetOf(l.units) \cap x.units # {} THEN {} ELSE { [x EXCEPT !.units = @ \cup SetOf(l.units)] }
    [] l.op = "seal" -> IF x.sealed \/ ~(SetOf(l.units) \subseteq x.units) THEN {} ELSE { [x EXCEPT !.units = @ \ SetOf(l.units), !.sealed = TRUE] }
    [] OTHER -> {}

(* v.map: read off the nodes; v.answers: the code's query per key; v.image: the map the branch stands for as a buffer; *)
(* v.sorted: keys in order and within the bounds the pivots give; v.own: distinct nodes, nothing else stored         *)
Agree(x, v) ==
  /\ v.ok /\ v.sorted /\ v.own /\ v.map = x.map /\ v.answers = x.map
  /\ (v.imaged => v.image = x.map)
  /\ (v.expanded => v.insertable)
  /\ SetOf(v.units) = x.units /\ v.sealed = x.sealed
  /\ SetOf(v.pages) \subseteq x.units
  /\ (v.alloc /\ x.sealed) => /\ SetOf(v.summary) = x.units
                              /\ SetOf(v.pages) = x.units
  /\ (v.alloc /\ v.expanded /\ ~x.sealed /\ v.built /\ v.room) => v.sealable
=============================================================================
