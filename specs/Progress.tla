------------------------------ MODULE Progress ------------------------------
(* "Never wedged": from every reachable state some continuation reaches the goal.  The   *)
(* conformance harness supplies the explored step graph reversed (In[n]: predecessors of  *)
(* n), the nodes at which the goal happens (Goal, which includes states whose successors  *)
(* were not explored), and the nodes that must be able to reach it (Must).  The states     *)
(* TLC reaches backwards from the goal are exactly those that can reach it.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT File
G == JsonDeserialize(File)
In == G.in
Goal == G.goal
VARIABLE node
Init == \E i \in 1..Len(Goal) : node = Goal[i] /\ TLCSet(42, 0)
Next == \E k \in 1..Len(In[node]) : node' = In[node][k]
AllCovered == TLCGet("stats").distinct = G.count
=============================================================================
