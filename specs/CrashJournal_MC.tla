-------------------------- MODULE CrashJournal_MC --------------------------
EXTENDS CrashJournal
CONSTANTS Msgs, MaxEnd
VARIABLES s, hist, durable        \* hist: messages of the current incarnation's log from 0; durable: highest position reported persistent
vars == <<s, hist, durable>>
Labels(x) ==
  { [op |-> "load"] } \cup { [op |-> "put", start |-> End(x.e), msgs |-> <<m>>] : m \in Msgs }
  \cup { [op |-> "persist", lsn |-> n] : n \in 0..MaxEnd }
  \cup { [op |-> "tau", allocs |-> <<a>>, deallocs |-> <<>>] : a \in AUs } \cup { [op |-> "tau", allocs |-> <<>>, deallocs |-> <<a>>] : a \in AUs }
  \cup { [op |-> "cstart", bdy |-> n, maxlsn |-> MaxEnd] : n \in 0..MaxEnd }
  \cup { [op |-> "ccomplete", require_end |-> End(x.e), deallocs |-> <<>>] }
  \cup { [op |-> "crash", keep |-> b] : b \in BOOLEAN }
MCInit == s \in Init0 /\ hist = <<>> /\ durable = 0
MCNext == \E l \in Labels(s) : \E t \in Succ(s, l) :
            /\ End(t.e) <= MaxEnd /\ s' = t
            /\ hist' = CASE l.op = "put" -> hist \o l.msgs [] l.op = "crash" -> SubSeq(hist, 1, End(t.p)) [] OTHER -> hist
            /\ durable' = IF l.op = "persist" /\ l.lsn > durable THEN l.lsn ELSE durable
\* every copy is a piece of the one history, and what was reported persistent is never lost
Piece(x) == End(x) <= Len(hist) /\ x.msgs = SubSeq(hist, x.start + 1, End(x))
Inv == Piece(s.p) /\ (s.fl => Piece(s.i)) /\ (s.up => Piece(s.e)) /\ durable <= End(s.p) /\ (s.up => s.e.start <= s.p.start /\ End(s.p) <= End(s.e))
=============================================================================
