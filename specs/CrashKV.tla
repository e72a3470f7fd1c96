------------------------------ MODULE CrashKV ------------------------------
(* The contract of the crash-tolerant key-value store as its client sees it.          *)
(* A store keeps a sequence of versions of the map: the durable one, to which a crash   *)
(* returns, up to the current one.  Requests execute atomically between their  *)
(* arrival and their reply; a sync request is answered only when a crash can no longer *)
(* return to a version older than the one current when it was made.                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Dflt

Init0 == { [hist |-> << [k \in Keys |-> Dflt] >>, reqs |-> {}, reps |-> {}, syncs |-> {}] }

Cur(x) == x.hist[Len(x.hist)]
MaxOf(a, b) == IF a > b THEN a ELSE b

(* Versions older than the one at index i can no longer come back. *)
Persist(x, i) == [x EXCEPT !.hist = SubSeq(@, i, Len(@)),
                           !.syncs = { [id |-> q.id, at |-> MaxOf(q.at - (i - 1), 1)] : q \in @ }]

(* l.op is one of request, execute, reply, reqsync, replysync, land, crash, tau *)
Execute(x, l) ==
  LET r == l.req IN
  IF r \notin x.reqs \/ l.rep.id # r.id THEN {}
  ELSE LET y == [x EXCEPT !.reqs = @ \ {r}, !.reps = @ \cup {l.rep}] IN
       CASE r.kind = "put" ->
              IF l.rep.out # "ok" THEN {}
              ELSE IF Cur(x)[r.k] = r.v THEN {y}        \* writing what is there makes no new version
              ELSE { [y EXCEPT !.hist = Append(@, [Cur(x) EXCEPT ![r.k] = r.v])] }
         [] r.kind = "get" -> IF l.rep.out = "value" /\ l.rep.v = Cur(x)[r.k] THEN {y} ELSE {}
         [] r.kind = "noop" -> IF l.rep.out = "noop" THEN {y} ELSE {}
         [] OTHER -> {}

Succ(x, l) ==
  CASE l.op = "tau" -> {x}
    [] l.op = "request" -> { [x EXCEPT !.reqs = @ \cup {l.req}] }
    [] l.op = "execute" -> Execute(x, l)
    [] l.op = "reply" -> IF l.rep \in x.reps THEN { [x EXCEPT !.reps = @ \ {l.rep}] } ELSE {}
    [] l.op = "reqsync" -> { [x EXCEPT !.syncs = {q \in @ : q.id # l.id} \cup {[id |-> l.id, at |-> Len(x.hist)]}] }
    [] l.op = "replysync" ->
         { [x EXCEPT !.syncs = @ \ {q}] : q \in {p \in x.syncs : p.id = l.id /\ p.at <= 1} }
    [] l.op = "land" -> { Persist(x, i) : i \in 1..Len(x.hist) }      \* the disk made some version durable
    [] l.op = "crash" -> { [hist |-> <<x.hist[1]>>, reqs |-> {}, reps |-> {}, syncs |-> {}] }
    [] OTHER -> {}

Agree(x, v) == TRUE
=============================================================================
