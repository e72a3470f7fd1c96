---------------------------- MODULE BetreeMap_MC ----------------------------
EXTENDS BetreeMap
CONSTANTS Keys, Vals, MaxEnd
VARIABLES s, log                    \* log: every message ever put
Msgs == { [kind |-> "def", k |-> k, v |-> v] : k \in Keys, v \in Vals } \cup { [kind |-> "upd", k |-> k, v |-> 0] : k \in Keys }
Labels(x) == { [op |-> "put", start |-> x.end, puts |-> ps] : ps \in { <<a>> : a \in Msgs } \cup { <<a, b>> : a, b \in Msgs } }
             \cup { [op |-> "query", lsn |-> x.end, k |-> k, v |-> v] : k \in Keys, v \in Vals \cup {0} }
             \cup { [op |-> "freeze", ok |-> TRUE, map |-> x.map, lsn |-> x.end] }
MCInit == s \in Init0 /\ log = <<>>
MCNext == \E l \in Labels(s) : \E t \in Succ(s, l) : t.end <= MaxEnd /\ s' = t /\ log' = IF l.op = "put" THEN log \o l.puts ELSE log
(* the value of a key is the one most recently defined *)
Last(k) == LET D == { i \in 1..Len(log) : log[i].k = k /\ log[i].kind = "def" } IN
           IF D = {} THEN 0 ELSE log[CHOOSE i \in D : \A j \in D : j <= i].v
Inv == s.end = Len(log) /\ \A k \in Keys : s.map[k + 1] = Last(k)
=============================================================================
