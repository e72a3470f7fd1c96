------------------------------- MODULE Pivots -------------------------------
(* Tables of pivots and changes of key prefixes.  Keys are byte strings; the upper end of a table may be Max, which is *)
(* above all keys.  A table of n + 1 pivots in increasing order has n children; child i holds the keys from its pivot   *)
(* up to, but excluding, the next.  An edge to a child may say << q >>: the child knows a key k of its range by the name *)
(* q followed by k without the prefix all keys of the range have in common.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Max == << 256 >>
Init0 == { "tables" }

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Lt(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                D == { i \in 1..n : a[i] # b[i] }
            IN IF D = {} THEN Len(a) < Len(b) ELSE LET i == Least(D) IN a[i] < b[i]
Le(a, b) == ~Lt(b, a)
Last(s) == s[Len(s)]
Sorted(pt) == \A i \in 1..(Len(pt) - 1) : Lt(pt[i], pt[i + 1])
Bounded(pt, k) == Le(pt[1], k) /\ Lt(k, Last(pt))
InChild(pt, i, k) == i \in 1..(Len(pt) - 1) /\ Le(pt[i], k) /\ Lt(k, pt[i + 1])
Route(pt, k) == CHOOSE i \in 1..(Len(pt) - 1) : InChild(pt, i, k)
(* how much of a table lies left of a key *)
LeftOf(pt, k) == Cardinality({ i \in 1..Len(pt) : Lt(pt[i], k) })
InsertAt(s, i, e) == SubSeq(s, 1, i) \o << e >> \o SubSeq(s, i + 1, Len(s))

HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Rest(k, p) == SubSeq(k, Len(p) + 1, Len(k))
(* the first element above all keys with prefix p *)
Upper(p) == LET D == { i \in 1..Len(p) : p[i] # 255 } IN
            IF D = {} THEN Max ELSE LET i == CHOOSE i \in D : \A j \in D : j <= i IN SubSeq(p, 1, i - 1) \o << p[i] + 1 >>
(* the longest prefix that all keys from l up to, but excluding, r have in common *)
Common(p, l, r) == HasPrefix(l, p) /\ Le(r, Upper(p))
CommonLen(l, r) == CHOOSE n \in 0..Len(l) : Common(SubSeq(l, 1, n), l, r) /\ \A m \in 0..Len(l) : Common(SubSeq(l, 1, m), l, r) => m <= n
Lcp(l, r) == SubSeq(l, 1, CommonLen(l, r))

(* a change is << >> or << prefix, newPrefix >> *)
Apply(c, k) == IF c = << >> THEN k ELSE c[2] \o Rest(k, c[1])
Change(pt, et, i) == IF et[i] = << >> THEN << >> ELSE << Lcp(pt[i], pt[i + 1]), et[i][1] >>
NameOf(pt, et, k) == LET i == Route(pt, k) IN Apply(Change(pt, et, i), k)
(* the same keys have the same names: enough to see at the lower end of each child, both ways of naming being changes of a common prefix *)
SameNames(pt, et, pt2, et2) == \A i \in 1..(Len(pt2) - 1) : NameOf(pt2, et2, pt2[i]) = NameOf(pt, et, pt2[i])
WFEdges(pt, et) == Len(et) = Len(pt) - 1
(* the range a child sees of keys [l, r) with prefix p known by prefix q *)
SeenFrom(l, p, q) == q \o Rest(l, p)
SeenTo(r, p, q) == IF r # Max /\ HasPrefix(r, p) THEN q \o Rest(r, p) ELSE Upper(q)
Longer(a, b) == IF Len(a) < Len(b) THEN b ELSE a

Holds(l) ==
  CASE l.op = "route" -> InChild(l.pt, l.i, l.k)
    [] l.op = "bounded" -> l.res = Bounded(l.pt, l.k)
    [] l.op = "total" -> l.res = (l.pt[1] = << >> /\ Last(l.pt) = Max)
    [] l.op = "range" -> l.res = (Le(l.pt[1], l.l) /\ Le(l.r, Last(l.pt)))
    [] l.op = "leftable" -> l.res = (Lt(l.pt[1], l.k) /\ Le(l.k, Last(l.pt)))
    [] l.op = "key" -> l.k = l.pt[l.i]
    [] l.op = "initial" -> l.pt = << << >>, Max >>
    [] l.op = "insertable" -> l.res = (l.i <= Len(l.pt) /\ Sorted(InsertAt(l.pt, l.i, l.k)))
    [] l.op = "cutleft" -> l.i = LeftOf(l.pt, l.k)
    [] l.op = "cutright" -> InChild(l.pt, l.i, l.k)
    [] l.op = "left" -> l.res = Append(SubSeq(l.pt, 1, LeftOf(l.pt, l.k)), l.k)
    [] l.op = "right" -> l.res = << l.k >> \o SubSeq(l.pt, Route(l.pt, l.k) + 1, Len(l.pt))
    [] l.op = "lcp" -> l.res = Lcp(l.l, l.r)
    [] l.op = "lcplen" -> l.n = Len(Lcp(l.l, l.r))
    [] l.op = "upper" -> l.res = Upper(l.p)
    [] l.op = "edges" -> WFEdges(l.pt2, l.et2) /\ SameNames(l.pt, l.et, l.pt2, l.et2)
    [] l.op = "name" -> l.res = NameOf(l.pt, l.et, l.k)
    [] l.op = "change" -> l.res = Change(l.pt, l.et, Route(l.pt, l.k))
    (* c undoes b and does a: for every key both apply to *)
    [] l.op = "compose" -> LET k == IF l.a = << >> THEN IF l.b = << >> THEN << >> ELSE l.b[1] ELSE IF l.b = << >> THEN l.a[1] ELSE Longer(l.a[1], l.b[1])
                               m == Apply(l.b, k)
                           IN (l.res = << >> \/ HasPrefix(m, l.res[1])) /\ Apply(l.res, m) = Apply(l.a, k)
    [] l.op = "element" -> l.res = SeenFrom(l.l, l.p, l.q)
    [] l.op = "pair" -> l.l2 = SeenFrom(l.l, l.p, l.q) /\ l.r2 = SeenTo(l.r, l.p, l.q)
    [] l.op = "pivots" -> l.res = [i \in 1..Len(l.pt) |-> IF i < Len(l.pt) THEN SeenFrom(l.pt[i], l.p, l.q) ELSE l.end]
    [] l.op = "alledges" -> l.res = [i \in 1..Len(l.et) |-> IF l.et[i] = << >> THEN << Lcp(l.pt[i], l.pt[i + 1]) >> ELSE l.et[i]]
    [] l.op = "covers" -> LET c == Change(l.pt, l.et, l.i)
                              lo == IF c = << >> THEN l.pt[l.i] ELSE SeenFrom(l.pt[l.i], c[1], c[2])
                              hi == IF c = << >> THEN l.pt[l.i + 1] ELSE SeenTo(l.pt[l.i + 1], c[1], c[2])
                          IN l.res = (Le(l.child[1], lo) /\ Le(hi, Last(l.child)))
    [] OTHER -> FALSE
Succ(x, l) == IF Holds(l) THEN {x} ELSE {}
Agree(x, v) == TRUE
=============================================================================
