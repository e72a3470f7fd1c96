------------------------------ MODULE SyncMap ------------------------------
(* The contract of VeriBetrKV with its client (MapSpec under ThreeStateVersionedMap):  *)
(* a map from keys to values (Dflt where nothing was put), scans in key order, and   *)
(* syncs.  A crash returns to a version of the map that was current at some time;   *)
(* versions become durable as writes land on the disk, and a sync is answered only when *)
(* no crash can return to a version older than the one current when it was made. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NKeys, Dflt
(* Keys are 0..NKeys-1 in key order. *)
Keys == 0..(NKeys - 1)

(* cur: the current version.  The durable version is the one that some changes after base led to: at least none of   *)
(* those in log, at most the first hi of them, which is all that is known; log: the changes from base to cur. *)
Init0 == { [base |-> [k \in Keys |-> Dflt], log |-> <<>>, hi |-> 0, cur |-> [k \in Keys |-> Dflt], syncs |-> {}] }

(* a change is a put, or a clone, which copies the keys with one prefix to another: pairs of target and source *)
CloneOf(m, ps) == [k \in Keys |-> IF \E i \in 1..Len(ps) : ps[i][1] = k THEN m[ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]] ELSE m[k]]
Apply(m, c) == IF c.op = "put" THEN [m EXCEPT ![c.k] = c.v] ELSE CloneOf(m, c.pairs)
RECURSIVE ApplyN(_, _, _)
ApplyN(m, log, n) == IF n = 0 THEN m ELSE ApplyN(Apply(m, log[1]), Tail(log), n - 1)

(* a change that changes nothing makes no new version *)
Change(x, c) == IF Apply(x.cur, c) = x.cur THEN {x} ELSE { [x EXCEPT !.cur = Apply(x.cur, c), !.log = Append(@, c)] }

Sub(a, b) == IF a > b THEN a - b ELSE 0
(* a write that lands may make any version durable, up to the current one *)
Land(x) == { [x EXCEPT !.hi = Len(x.log)] }
(* an answered sync: the durable version is no older than the version of the sync *)
Synced(x, q) ==
  IF q.at > x.hi THEN {}
  ELSE { [base |-> ApplyN(x.base, x.log, q.at), log |-> SubSeq(x.log, q.at + 1, Len(x.log)), hi |-> x.hi - q.at, cur |-> x.cur,
          syncs |-> { [id |-> p.id, at |-> Sub(p.at, q.at)] : p \in x.syncs \ {q} }] }
(* the versions a crash may return to *)
RECURSIVE Versions(_, _, _)
Versions(m, log, n) == IF n = 0 THEN {m} ELSE {m} \cup Versions(Apply(m, log[1]), Tail(log), n - 1)
Crash(x) == { [base |-> m, log |-> <<>>, hi |-> 0, cur |-> m, syncs |-> {}] : m \in Versions(x.base, x.log, x.hi) }

(* what a scan of the keys from l.from up to (excluding) l.upto must return *)
RECURSIVE Scan(_, _, _)
Scan(m, a, b) == IF a >= b THEN <<>> ELSE IF m[a] = Dflt THEN Scan(m, a + 1, b) ELSE << <<a, m[a]>> >> \o Scan(m, a + 1, b)

Succ(x, l) ==
  CASE l.op = "tau" -> {x}
    [] l.op = "put" -> Change(x, [op |-> "put", k |-> l.k, v |-> l.v])
    [] l.op = "clone" -> Change(x, [op |-> "clone", pairs |-> l.pairs])
    [] l.op = "get" -> IF x.cur[l.k] = l.v THEN {x} ELSE {}
    [] l.op = "succ" -> IF l.fwd /\ l.res = Scan(x.cur, l.from, l.upto) THEN {x} ELSE {}
    [] l.op = "pushsync" -> IF \E q \in x.syncs : q.id = l.id THEN {} ELSE { [x EXCEPT !.syncs = @ \cup {[id |-> l.id, at |-> Len(x.log)]}] }
    [] l.op = "popsync" -> UNION { Synced(x, q) : q \in {p \in x.syncs : p.id = l.id} }
    [] l.op = "land" -> Land(x)
    [] l.op = "crash" -> Crash(x)
    [] OTHER -> {}

Agree(x, v) == TRUE
=============================================================================
