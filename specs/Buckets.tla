------------------------------ MODULE Buckets ------------------------------
(* Buckets of messages: the objects of a state are finite maps from keys to values.  A key is named by its place in the *)
(* list Keys of byte strings, which is in byte order; values are numbers, and value v is written in MLen(v) bytes.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Objects, Keys
Init0 == { [o \in 1..Objects |-> << >>] }
MLen(v) == IF v = 0 THEN 0 ELSE 2 + 6 * (v % 5)

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Lt(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                D == { i \in 1..n : a[i] # b[i] }
            IN IF D = {} THEN Len(a) < Len(b) ELSE LET i == Least(D) IN a[i] < b[i]
ASSUME \A i \in 1..(Len(Keys) - 1) : Lt(Keys[i], Keys[i + 1])
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Rest(k, p) == SubSeq(k, Len(p) + 1, Len(k))

Ran(s) == { s[i] : i \in 1..Len(s) }
Set(x, o, v) == { [x EXCEPT ![o] = v] }
Put(m, k, v) == (k :> v) @@ m
Restrict(m, P(_)) == [j \in { k \in DOMAIN m : P(k) } |-> m[j]]
RECURSIVE SumOver(_, _)
SumOver(m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN 8 + Len(Keys[k]) + MLen(m[k]) + SumOver(m, S \ {k})
Weight(m) == SumOver(m, DOMAIN m)
RECURSIVE Total(_, _)
Total(x, os) == IF os = << >> THEN 0 ELSE Weight(x[Head(os)]) + Total(x, Tail(os))
(* the list of the entries of m in key order *)
Listed(m, items) == /\ Len(items) = Cardinality(DOMAIN m)
                    /\ \A i \in 1..Len(items) : items[i][1] \in DOMAIN m /\ m[items[i][1]] = items[i][2]
                    /\ \A i \in 1..(Len(items) - 1) : items[i][1] < items[i + 1][1]
(* the child of a key, for pivots (places in Keys) in increasing order *)
Child(piv, k) == 1 + Cardinality({ i \in 1..Len(piv) : piv[i] <= k })

(* a layer of a scan: an object, and the change of prefix with which its keys are seen, if any *)
Seen(x, ly) == IF ly.change = << >> THEN { << Keys[k], x[ly.o][k] >> : k \in DOMAIN x[ly.o] }
               ELSE { << ly.change[2] \o Rest(Keys[k], ly.change[1]), x[ly.o][k] >> : k \in { j \in DOMAIN x[ly.o] : HasPrefix(Keys[j], ly.change[1]) } }
(* upper layers hide lower ones *)
RECURSIVE Stack(_, _)
Stack(x, lys) == IF lys = << >> THEN {} ELSE LET top == Seen(x, Head(lys))  names == { e[1] : e \in top }
                                             IN top \cup { e \in Stack(x, Tail(lys)) : e[1] \notin names }
Ascending(items) == \A i \in 1..(Len(items) - 1) : Lt(items[i][1], items[i + 1][1])
Above(k, l) == l.start = << >> \/ Lt(l.start[1], k) \/ (l.incl /\ l.start[1] = k)
(* the first entries at or above the start; all of them, unless told that the caller stopped *)
Scan(S, l) == LET R == { e \in S : Above(e[1], l) } IN
              /\ Ascending(l.items) /\ Ran(l.items) \subseteq R
              /\ IF l.stopped THEN \A e \in R : e \in Ran(l.items) \/ Lt(l.items[Len(l.items)][1], e[1])
                              ELSE Len(l.items) = Cardinality(R)

(* what flushing top into the buckets bots may do: some keys stay, the others go to the child they belong to *)
Flushed(x, l) == LET kept == Ran(l.kept)  top == x[l.top]  gone == Restrict(top, LAMBDA k : k \notin kept)
                 IN [o \in 1..Objects |-> IF o = l.top THEN Restrict(top, LAMBDA k : k \in kept)
                                          ELSE IF o \in Ran(l.bots) THEN LET i == CHOOSE i \in 1..Len(l.bots) : l.bots[i] = o
                                                                         IN Restrict(gone, LAMBDA k : Child(l.piv, k) = i) @@ x[o]
                                          ELSE x[o]]

(* the number of keys below and including *)
Below(m, k) == Cardinality({ j \in DOMAIN m : j < k })
Upto(m, k) == Cardinality({ j \in DOMAIN m : j <= k })

Succ(x, l) ==
  LET m == x[l.o] IN
  CASE l.op = "new" -> Set(x, l.o, << >>)
    [] l.op = "put" -> Set(x, l.o, Put(m, l.k, l.v))
    [] l.op = "nop" -> {x}
    [] l.op = "copy" -> Set(x, l.to, m)
    [] l.op = "get" -> IF l.res = (IF l.k \in DOMAIN m THEN << m[l.k] >> ELSE << >>) THEN {x} ELSE {}
    [] l.op = "all" -> IF Listed(m, l.items) THEN {x} ELSE {}
    [] l.op = "weight" -> IF l.n = Weight(m) THEN {x} ELSE {}
    [] l.op = "weights" -> IF l.n = Total(x, l.os) THEN {x} ELSE {}
    [] l.op = "isempty" -> IF l.res = (DOMAIN m = {}) THEN {x} ELSE {}
    [] l.op = "sorted" -> IF l.res THEN {x} ELSE {}
    [] l.op = "first" -> IF l.k \in DOMAIN m /\ \A j \in DOMAIN m : l.k <= j THEN {x} ELSE {}
    [] l.op = "last" -> IF l.k \in DOMAIN m /\ \A j \in DOMAIN m : j <= l.k THEN {x} ELSE {}
    (* a key to divide a bucket at *)
    [] l.op = "middle" -> IF DOMAIN m = {} \/ (l.k \in DOMAIN m /\ (Cardinality(DOMAIN m) > 1 => \E j \in DOMAIN m : j < l.k)) THEN {x} ELSE {}
    [] l.op = "left" -> Set(x, l.to, Restrict(m, LAMBDA k : k < l.k))
    [] l.op = "right" -> Set(x, l.to, Restrict(m, LAMBDA k : k >= l.k))
    [] l.op = "cut" -> { [x EXCEPT ![l.o] = Restrict(m, LAMBDA k : k < l.k), ![l.to] = Restrict(m, LAMBDA k : k >= l.k)] }
    (* entries l.a + 1 to l.b, counted in key order *)
    [] l.op = "sub" -> Set(x, l.to, Restrict(m, LAMBDA k : Below(m, k) >= l.a /\ Below(m, k) < l.b))
    [] l.op = "within" -> IF l.res = (\A k \in DOMAIN m : Child(l.piv, k) = l.i) THEN {x} ELSE {}
    [] l.op = "noprefix" -> IF l.res = (\A o \in Ran(l.os) : \A k \in DOMAIN x[o] : ~HasPrefix(Keys[k], l.p)) THEN {x} ELSE {}
    (* places in the order of keys *)
    [] l.op = "gte" -> IF l.n = Below(m, l.k) THEN {x} ELSE {}
    [] l.op = "gt" -> IF l.n = Upto(m, l.k) THEN {x} ELSE {}
    [] l.op = "lte" -> IF l.n = Upto(m, l.k) - 1 THEN {x} ELSE {}
    [] l.op = "scan" -> IF Scan(Stack(x, l.layers), l) THEN {x} ELSE {}
    [] l.op = "translate" -> LET S == Seen(x, [o |-> l.o, change |-> l.change]) IN IF Ascending(l.items) /\ Ran(l.items) = S THEN {x} ELSE {}
    [] l.op = "flush" -> LET y == Flushed(x, l) IN
                         IF /\ Ran(l.kept) \subseteq DOMAIN x[l.top]
                            /\ Total(y, l.bots) <= l.max
                            /\ Total(x, l.bots) + Weight(x[l.top]) <= l.max => l.kept = << >>
                         THEN {y} ELSE {}
    [] OTHER -> {}
Agree(x, v) == TRUE
=============================================================================
