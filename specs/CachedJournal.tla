---------------------------- MODULE CachedJournal ----------------------------
(* A journal whose pages live in a cache above an asynchronous disk, as its user   *)
(* sees it: a log of messages from sequence number `start`, whatever the cache     *)
(* loads, writes back and evicts and whenever the disk answers.  An image that the *)
(* journal froze for a commit is durable: the disk alone holds it, page by page,   *)
(* from that moment until part of it is discarded.  Discarding frees only pages    *)
(* that nothing will write any more (`pending` counts those that break this).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Starts        \* contents the journal may be opened with
Log == INSTANCE LogJournal

NoImage == [start |-> 0 - 1, msgs |-> <<>>]
Init0 == { [start |-> s.start, msgs |-> s.msgs, frozen |-> NoImage] : s \in Starts }
End(x) == Log!End(x)

Succ(x, l) ==
  CASE l.op = "freeze" -> IF Log!IsSlice(x, l.start, l.msgs) THEN { [x EXCEPT !.frozen = [start |-> l.start, msgs |-> l.msgs]] } ELSE {}
    [] l.op = "discard" -> IF x.start <= l.lsn /\ l.lsn <= l.require_end /\ l.require_end <= End(x) /\ l.pending = 0
                           THEN { [start |-> l.lsn, msgs |-> Log!DropTo(x, l.lsn).msgs, frozen |-> IF x.frozen.start < l.lsn THEN NoImage ELSE x.frozen] } ELSE {}
    [] OTHER -> Log!Succ(x, l)

Agree(x, v) == v.ok /\ x.start = v.start /\ x.msgs = v.msgs /\ x.frozen = v.frozen
=============================================================================
