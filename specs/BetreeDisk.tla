----------------------------- MODULE BetreeDisk -----------------------------
(* A B-epsilon tree whose nodes and buffers live at addresses of a disk: it is the  *)
(* map of BetreeMap, everything that can be reached from its root is stored, and     *)
(* the references it keeps count of (per page or per allocation unit) are those       *)
(* found in the tree.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Starts
M == INSTANCE BetreeMap
Init0 == Starts
Succ(x, l) == M!Succ(x, l)
Agree(x, v) == M!Agree(x, v) /\ v.stored /\ v.likes = v.refs
=============================================================================
