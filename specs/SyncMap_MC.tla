------------------------------ MODULE SyncMap_MC ------------------------------
(* The promise of SyncMap, stated over the whole history: the versions of the map in order (hist), and the index of the   *)
(* newest one that an answered sync vouches for (safe).  A crash returns to a version no older than that, and later versions *)
(* are gone for good. *)
EXTENDS SyncMap, TLC
CONSTANTS Vals, Ids, MaxWrites
VARIABLES x, hist, safe, asked
vars == <<x, hist, safe, asked>>
MCInit == x \in Init0 /\ hist = << [k \in Keys |-> Dflt] >> /\ safe = 1 /\ asked = [i \in Ids |-> 0]
Put(k, v) == /\ Len(hist) <= MaxWrites /\ x' \in Succ(x, [op |-> "put", k |-> k, v |-> v])
             /\ hist' = Append(hist, [hist[Len(hist)] EXCEPT ![k] = v]) /\ UNCHANGED <<safe, asked>>
Clone(a, b) == /\ Len(hist) <= MaxWrites /\ x' \in Succ(x, [op |-> "clone", pairs |-> << <<a, b>> >>])
               /\ hist' = Append(hist, [hist[Len(hist)] EXCEPT ![a] = hist[Len(hist)][b]]) /\ UNCHANGED <<safe, asked>>
Push(i) == /\ asked[i] = 0 /\ x' \in Succ(x, [op |-> "pushsync", id |-> i]) /\ asked' = [asked EXCEPT ![i] = Len(hist)] /\ UNCHANGED <<hist, safe>>
Pop(i) == /\ asked[i] > 0 /\ x' \in Succ(x, [op |-> "popsync", id |-> i]) /\ safe' = (IF asked[i] > safe THEN asked[i] ELSE safe)
          /\ asked' = [asked EXCEPT ![i] = 0] /\ UNCHANGED hist
Lands == x' \in Succ(x, [op |-> "land"]) /\ UNCHANGED <<hist, safe, asked>>
Crashes == /\ x' \in Succ(x, [op |-> "crash"]) /\ asked' = [i \in Ids |-> 0]
           /\ \E n \in safe..Len(hist) : hist[n] = x'.cur /\ hist' = SubSeq(hist, 1, n)
           /\ safe' = safe
(* a crash to a version that the history does not allow *)
BadCrash == /\ x' \in Succ(x, [op |-> "crash"]) /\ ~ \E n \in safe..Len(hist) : hist[n] = x'.cur
            /\ hist' = <<>> /\ UNCHANGED <<safe, asked>>
MCNext == (\E k \in Keys, v \in Vals : Put(k, v)) \/ (\E a, b \in Keys : Clone(a, b)) \/ (\E i \in Ids : Push(i) \/ Pop(i)) \/ Lands \/ Crashes \/ BadCrash
Inv == /\ Len(hist) > 0 /\ x.cur = hist[Len(hist)] /\ ApplyN(x.base, x.log, Len(x.log)) = x.cur
       /\ x.hi <= Len(x.log) /\ \A q \in x.syncs : q.at <= Len(x.log)
=============================================================================
