---------------------------- MODULE CrashKV_MC ----------------------------
(* The contract of CrashKV, checked: a ghost log of all writes in the current lineage    *)
(* and of what was acknowledged shows that acknowledged writes survive every crash and   *)
(* that a crash returns to a prefix of the write history.                                *)
EXTENDS CrashKV, SequencesExt
CONSTANTS Vals, Ids, MaxWrites
VARIABLES s, log, acked, pend      \* log: writes so far; acked: number known durable; pend: sync id -> Len(log) when asked

Apply(w) == LET F[i \in 0..Len(w)] == IF i = 0 THEN [k \in Keys |-> Dflt] ELSE [F[i-1] EXCEPT ![w[i][1]] = w[i][2]] IN F[Len(w)]
Reqs == [id : Ids, kind : {"put"}, k : Keys, v : Vals] \cup [id : Ids, kind : {"get"}, k : Keys] \cup [id : Ids, kind : {"noop"}]
Reps == [id : Ids, out : {"ok", "noop"}] \cup [id : Ids, out : {"value"}, v : Vals \cup {Dflt}]
Busy(x, i) == (\E r \in x.reqs : r.id = i) \/ (\E r \in x.reps : r.id = i)
Labels(x) ==
  { [op |-> "request", req |-> r] : r \in {q \in Reqs : ~Busy(x, q.id)} }
  \cup { [op |-> "execute", req |-> r, rep |-> p] : r \in x.reqs, p \in Reps }
  \cup { [op |-> "reply", rep |-> p] : p \in x.reps }
  \cup { [op |-> "reqsync", id |-> i] : i \in {j \in Ids : \A q \in x.syncs : q.id # j} }
  \cup { [op |-> "replysync", id |-> q.id] : q \in x.syncs }
  \cup { [op |-> "crash"], [op |-> "land"] }
MCInit == s \in Init0 /\ log = <<>> /\ acked = 0 /\ pend = [i \in Ids |-> 0]
MCNext == \E l \in Labels(s) : \E t \in Succ(s, l) :
  /\ s' = t
  /\ CASE l.op = "execute" /\ l.req.kind = "put" /\ Len(t.hist) > Len(s.hist) ->
            Len(log) < MaxWrites /\ log' = Append(log, <<l.req.k, l.req.v>>) /\ UNCHANGED <<acked, pend>>
       [] l.op = "reqsync" -> pend' = [pend EXCEPT ![l.id] = Len(log)] /\ UNCHANGED <<acked, log>>
       [] l.op = "replysync" -> acked' = MaxOf(acked, pend[l.id]) /\ UNCHANGED <<log, pend>>
       [] l.op = "crash" -> LET n == Len(log) - Len(s.hist) + 1 IN log' = SubSeq(log, 1, n) /\ acked' = n /\ UNCHANGED pend
       [] OTHER -> UNCHANGED <<log, acked, pend>>
CurrentIsLog == Cur(s) = Apply(log)
Durable == Len(log) - Len(s.hist) + 1 >= acked      \* the version a crash returns to has every acknowledged write
VersionsArePrefixes == \A i \in 1..Len(s.hist) : s.hist[i] = Apply(SubSeq(log, 1, Len(log) - Len(s.hist) + i))
Inv == CurrentIsLog /\ Durable /\ VersionsArePrefixes
=============================================================================
