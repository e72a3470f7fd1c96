------------------------------ MODULE PageCache ------------------------------
(* A page cache above a disk that serves requests in any order.  Seen from above      *)
(* there is one array of pages: an access reads the latest content and replaces it,     *)
(* and moving pages between cache and disk (reserving, loading, writing back,            *)
(* evicting, the disk working) changes nothing.  A page reported clean is what            *)
(* the disk holds.  And pages keep moving: a filled page can be read, and written unless    *)
(* it is on its way to disk; a dirty page can be written back, a clean one evicted, an         *)
(* absent one loaded while there is room, and a response from the disk accepted.                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Pages             \* how many pages; each holds 0 in the beginning
SetOf(s) == { s[i] : i \in 1..Len(s) }
Init0 == { [p \in 1..Pages |-> 0] }
Look(x, ps) == \A i \in 1..Len(ps) : x[ps[i][1] + 1] = ps[i][2]
Put(x, ps) == [p \in 1..Pages |-> IF \E i \in 1..Len(ps) : ps[i][1] + 1 = p THEN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] + 1 = p][2] ELSE x[p]]
Succ(x, l) ==
  CASE l.op = "access" -> IF Look(x, l.reads) THEN { Put(x, l.writes) } ELSE {}
    [] l.op = "check" -> { x }
    [] OTHER -> { x }
Agree(x, v) == /\ v.map = x
               /\ \A p \in SetOf(v.clean) : v.disk[p + 1] = x[p + 1]
               /\ v.expanded => /\ SetOf(v.filled) \subseteq SetOf(v.reads)
                                /\ SetOf(v.writable) \subseteq SetOf(v.writes)
                                /\ SetOf(v.dirty) \subseteq SetOf(v.flushes)
                                /\ SetOf(v.idle) \subseteq SetOf(v.evicts)
                                /\ SetOf(v.absent) \subseteq SetOf(v.loads)
                                /\ SetOf(v.due) \subseteq SetOf(v.done)
=============================================================================
