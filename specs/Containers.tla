----------------------------- MODULE Containers -----------------------------
(* The containers VeriBetrKV is built from, as their clients see them.  A state holds some objects: maps from keys to *)
(* values, sets of numbers (bitmaps), or lists of pairs of a position and a value.  Keys are numbers in key order.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Objects, Empty
Init0 == { [o \in 1..Objects |-> Empty] }
Set(x, o, v) == { [x EXCEPT ![o] = v] }
Ran(s) == { s[i] : i \in 1..Len(s) }

(* ---- maps *)
Look(m, k) == IF k \in DOMAIN m THEN << m[k] >> ELSE << >>
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [j \in DOMAIN m \ {k} |-> m[j]]
Restrict(m, P(_)) == [j \in { k \in DOMAIN m : P(k) } |-> m[j]]
IsMax(S, k) == k \in S /\ \A j \in S : j <= k
IsMin(S, k) == k \in S /\ \A j \in S : j >= k
(* a listing of every key once, with its value, in any order *)
Lists(m, items) == Len(items) = Cardinality(DOMAIN m) /\ { p[1] : p \in Ran(items) } = DOMAIN m /\ \A p \in Ran(items) : m[p[1]] = p[2]
(* what a caller may learn of the old value; the size afterwards (-1: not asked) *)
Old(l, m) == ~l.tell \/ l.old = Look(m, l.k)
Size(l, m) == l.n = -1 \/ l.n = Cardinality(DOMAIN m)

(* ---- lists *)
Ptrs(s) == { s[i][1] : i \in 1..Len(s) }
At(s, p) == CHOOSE i \in 1..Len(s) : s[i][1] = p
InsertAt(s, i, e) == SubSeq(s, 1, i) \o << e >> \o SubSeq(s, i + 1, Len(s))
DeleteAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
HasVal(s, v) == \E i \in 1..Len(s) : s[i][2] = v
Where(s, v) == CHOOSE i \in 1..Len(s) : s[i][2] = v
Without(s, v) == IF HasVal(s, v) THEN DeleteAt(s, Where(s, v)) ELSE s
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Succ(x, l) ==
  LET m == x[l.o] IN
  CASE l.op = "new" -> Set(x, l.o, Empty)
    [] l.op = "copy" -> Set(x, l.to, m)
    (* maps *)
    [] l.op = "put" -> IF Old(l, m) /\ Size(l, Put(m, l.k, l.v)) THEN Set(x, l.o, Put(m, l.k, l.v)) ELSE {}
    [] l.op = "del" -> IF Old(l, m) /\ Size(l, Del(m, l.k)) THEN Set(x, l.o, Del(m, l.k)) ELSE {}
    [] l.op = "get" -> IF l.res = Look(m, l.k) THEN {x} ELSE {}
    [] l.op = "setat" -> IF l.found = (l.k \in DOMAIN m) THEN (IF l.found THEN Set(x, l.o, Put(m, l.k, l.v)) ELSE {x}) ELSE {}
    [] l.op = "all" -> IF Lists(m, l.items) THEN {x} ELSE {}
    [] l.op = "max" -> IF IsMax(DOMAIN m, l.k) THEN {x} ELSE {}
    [] l.op = "min" -> IF IsMin(DOMAIN m, l.k) THEN {x} ELSE {}
    [] l.op = "size" -> IF l.n = Cardinality(DOMAIN m) THEN {x} ELSE {}
    [] l.op = "isempty" -> IF l.res = (DOMAIN m = {}) THEN {x} ELSE {}
    (* the keys below l.k stay, the others go to object l.to; neither part is empty *)
    [] l.op = "cut" -> LET a == Restrict(m, LAMBDA k : k < l.k)  b == Restrict(m, LAMBDA k : k >= l.k) IN
                       IF DOMAIN a # {} /\ DOMAIN b # {} THEN { [x EXCEPT ![l.o] = a, ![l.to] = b] } ELSE {}
    (* bitmaps *)
    [] l.op = "set" -> Set(x, l.o, m \cup {l.k})
    [] l.op = "unset" -> Set(x, l.o, m \ {l.k})
    [] l.op = "bits" -> IF Ran(l.bits) = m /\ Len(l.bits) = Cardinality(m) THEN {x} ELSE {}
    [] l.op = "alloc" -> IF IF l.res = << >> THEN m = 0..(l.cap - 1) ELSE l.res[1] \in 0..(l.cap - 1) \ m THEN {x} ELSE {}
    [] l.op = "union" -> Set(x, l.to, m \cup x[l.with])
    (* lists with positions; position 0 is before the first and after the last *)
    [] l.op = "after" -> IF l.new \in Ptrs(m) \cup {0} THEN {} ELSE Set(x, l.o, InsertAt(m, IF l.p = 0 THEN 0 ELSE At(m, l.p), <<l.new, l.v>>))
    [] l.op = "before" -> IF l.new \in Ptrs(m) \cup {0} THEN {} ELSE Set(x, l.o, InsertAt(m, IF l.p = 0 THEN Len(m) ELSE At(m, l.p) - 1, <<l.new, l.v>>))
    [] l.op = "remove" -> Set(x, l.o, DeleteAt(m, At(m, l.p)))
    [] l.op = "walk" -> IF l.fwd = m /\ l.back = Rev(m) THEN {x} ELSE {}
    (* queues of distinct values: position 0 throughout *)
    [] l.op = "use" -> Set(x, l.o, Append(Without(m, l.k), <<0, l.k>>))
    [] l.op = "add" -> IF HasVal(m, l.k) THEN {x} ELSE Set(x, l.o, Append(m, <<0, l.k>>))
    [] l.op = "drop" -> Set(x, l.o, Without(m, l.k))
    [] l.op = "first" -> IF l.res = (IF m = << >> THEN << >> ELSE << m[1][2] >>) THEN {x} ELSE {}
    [] l.op = "order" -> IF l.vals = Vals(m) /\ l.back = Rev(Vals(m)) THEN {x} ELSE {}
    [] l.op = "count" -> IF l.n = Len(m) THEN {x} ELSE {}
    (* plain sequences of values *)
    [] l.op = "push" -> Set(x, l.o, Append(m, <<0, l.v>>))
    [] l.op = "pop" -> IF m # << >> /\ m[Len(m)][2] = l.v THEN Set(x, l.o, SubSeq(m, 1, Len(m) - 1)) ELSE {}
    (* takes element l.p out and puts the last one into its place *)
    [] l.op = "swapout" -> IF m[l.p][2] # l.v THEN {}
                           ELSE LET n == Len(m) IN Set(x, l.o, [i \in 1..(n - 1) |-> IF i = l.p THEN m[n] ELSE m[i]])
    [] l.op = "at" -> IF m[l.p][2] = l.v THEN {x} ELSE {}
    [] l.op = "insert" -> Set(x, l.o, InsertAt(m, l.p - 1, <<0, l.v>>))
    [] l.op = "assign" -> Set(x, l.o, [m EXCEPT ![l.p] = <<0, l.v>>])
    [] l.op = "slice" -> Set(x, l.to, SubSeq(m, l.a + 1, l.b))
    [] l.op = "resize" -> Set(x, l.o, [i \in 1..l.n |-> IF i <= Len(m) THEN m[i] ELSE <<0, l.v>>])
    (* elements l.a+1..l.b of m over those from l.at+1 on of object l.to *)
    [] l.op = "blit" -> Set(x, l.to, [i \in 1..Len(x[l.to]) |-> IF i > l.at /\ i <= l.at + l.b - l.a THEN m[l.a + i - l.at] ELSE x[l.to][i]])
    [] l.op = "pair" -> IF m[l.p][2] = l.v THEN Set(x, l.o, SubSeq(m, 1, l.p - 1) \o << <<0, l.l>>, <<0, l.r>> >> \o SubSeq(m, l.p + 1, Len(m))) ELSE {}
    [] l.op = "vals" -> IF l.vals = Vals(m) THEN {x} ELSE {}
    [] OTHER -> {}
Agree(x, v) == TRUE
=============================================================================
