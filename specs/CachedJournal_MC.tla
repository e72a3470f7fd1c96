-------------------------- MODULE CachedJournal_MC --------------------------
EXTENDS CachedJournal
CONSTANTS Msgs, MaxEnd
VARIABLES s, all                    \* all: every message ever appended
Slices(x) == { <<a, SubSeq(x.msgs, a - x.start + 1, b - x.start)>> : a, b \in x.start..End(x) }
Labels(x) ==
  { [op |-> "put", start |-> End(x), msgs |-> ms] : ms \in {<<a>> : a \in Msgs} \cup {<<a, b>> : a, b \in Msgs} }
  \cup { [op |-> o, start |-> q[1], msgs |-> q[2]] : o \in {"read", "freeze"}, q \in Slices(x) }
  \cup { [op |-> "discard", lsn |-> n, require_end |-> e, pending |-> 0] : n, e \in 0..MaxEnd }
MCInit == s \in Init0 /\ all = [i \in 1..s.start |-> 0] \o s.msgs
MCNext == \E l \in Labels(s) : \E t \in Succ(s, l) :
            /\ End(t) <= MaxEnd /\ s' = t
            /\ all' = IF l.op = "put" THEN all \o l.msgs ELSE all
\* The log is what was appended, and the durable image is a piece of it that starts inside the log.
Inv == /\ s.start <= Len(all) /\ s.msgs = SubSeq(all, s.start + 1, Len(all))
       /\ s.frozen = NoImage \/ (s.frozen.start >= s.start /\ s.frozen.msgs = SubSeq(all, s.frozen.start + 1, s.frozen.start + Len(s.frozen.msgs)))
=============================================================================
