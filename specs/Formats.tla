------------------------------ MODULE Formats ------------------------------
(* The byte formats: integers (little-endian), packed sequences of fixed-size elements, resizable sequences (a length field and then   *)
(* slots), sequences of variable-size elements (a length field, a table of start offsets, and the elements packed backwards from the    *)
(* end of the area), and key-value pairs (key length, key, value).  An integer value is the sequence of its base-256 digits, least      *)
(* significant first; an optional value is a sequence of length 0 or 1.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL Big == 1000000
RECURSIVE Sum(_), Parsable(_, _), Parse(_, _), Size(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cut(b, from, n) == SubSeq(b, from + 1, from + n)         \* n bytes from offset `from`
From(b, from) == SubSeq(b, from + 1, Len(b))
Num(b) == IF \E k \in 4..Len(b) : b[k] # 0 THEN Big
          ELSE LET n == Sum([k \in 1..(IF Len(b) < 3 THEN Len(b) ELSE 3) |-> b[k] * (CASE k = 1 -> 1 [] k = 2 -> 256 [] OTHER -> 65536)])
               IN IF n > Big THEN Big ELSE n
LenMax(w) == CASE w = 1 -> 255 [] w = 2 -> 65535 [] OTHER -> Big
USize(f) == f.w
Cap(f) == (f.total - f.lw) \div USize(f.e)
Count(f, b) == IF f.t = "uni" THEN Len(b) \div USize(f.e) ELSE Num(Cut(b, 0, f.lw))
Offset(f, i) == (IF f.t = "uni" THEN 0 ELSE f.lw) + i * USize(f.e)
Slot(f, b, i) == Parse(f.e, Cut(b, Offset(f, i), USize(f.e)))
Table(f) == [t |-> "res", e |-> [t |-> "int", w |-> f.bw], lw |-> f.lw, total |-> f.total]

Parsable(f, b) ==
  CASE f.t = "int" -> f.w <= Len(b)
    [] f.t = "uni" -> TRUE
    [] f.t = "res" -> f.total <= Len(b) /\ Count(f, b) <= Cap(f)
    [] f.t = "kv" -> /\ f.kw <= Len(b)
                     /\ LET n == Num(Cut(b, 0, f.kw)) IN f.kw + n <= Len(b) /\ Parsable(f.k, Cut(b, f.kw, n)) /\ Parsable(f.d, From(b, f.kw + n))
Parse(f, b) ==
  CASE f.t = "int" -> Cut(b, 0, f.w)
    [] f.t \in {"uni", "res"} -> [i \in 1..Count(f, b) |-> Slot(f, b, i - 1)]
    [] f.t = "kv" -> LET n == Num(Cut(b, 0, f.kw)) IN << Parse(f.k, Cut(b, f.kw, n)), Parse(f.d, From(b, f.kw + n)) >>
Size(f, v) ==
  CASE f.t = "int" -> f.w
    [] f.t = "uni" -> Len(v) * USize(f.e)
    [] f.t = "res" -> f.total
    [] f.t = "kv" -> f.kw + Size(f.k, v[1]) + Size(f.d, v[2])
Opt(f, b) == IF Parsable(f, b) THEN << Parse(f, b) >> ELSE << >>

\* Variable-size elements.
Bdy(f, b, i) == Num(Slot(Table(f), b, i))
EltEnd(f, b, i) == IF i = 0 THEN f.total ELSE Bdy(f, b, i - 1)
Free(f, b) == LET n == Count(f, b) IN EltEnd(f, b, n) - (f.lw + n * f.bw)
Tabled(f, b) == LET n == Count(f, b) IN
  /\ Parsable(Table(f), b)
  /\ \A i \in 0..n - 1 : Bdy(f, b, i) <= EltEnd(f, b, i)
  /\ n > 0 => f.lw + n * f.bw <= Bdy(f, b, n - 1)

\* What a sequence format must answer about bytes b, asked about the given indices, lengths and elements.
Ks(P(_), n) == SelectSeq([k \in 1..n |-> k], P)
Gettable(f, b, i) ==
  CASE f.t = "uni" -> i < Count(f, b)
    [] f.t = "res" -> f.total <= Len(b) /\ i < Cap(f)
    [] f.t = "var" -> f.total <= Len(b) /\ i < Count(f, b) /\ i < Cap(Table(f)) /\ Bdy(f, b, i) <= EltEnd(f, b, i) /\ EltEnd(f, b, i) <= f.total
Got(f, b, i) ==
  IF f.t = "var" THEN [i |-> i, from |-> Bdy(f, b, i), to |-> EltEnd(f, b, i), v |-> Opt(f.e, Cut(b, Bdy(f, b, i), EltEnd(f, b, i) - Bdy(f, b, i)))]
  ELSE [i |-> i, from |-> Offset(f, i), to |-> Offset(f, i) + USize(f.e), v |-> << Slot(f, b, i) >>]
Answers(f, b, probes, sizes, vals) ==
  LET lengthable == f.t = "uni" \/ f.total <= Len(b)
      wf == CASE f.t = "uni" -> FALSE [] f.t = "res" -> lengthable [] f.t = "var" -> lengthable /\ Tabled(f, b)
      gs == SelectSeq(probes, LAMBDA i : Gettable(f, b, i))
  IN [len |-> IF lengthable THEN Count(f, b) ELSE 0 - 1,
      get |-> [k \in 1..Len(gs) |-> Got(f, b, gs[k])],
      wf |-> wf,
      set |-> IF f.t = "var" THEN <<>> ELSE gs,
      resize |-> IF f.t = "res" /\ lengthable THEN SelectSeq(sizes, LAMBDA n : n <= Cap(f) /\ n <= LenMax(f.lw)) ELSE <<>>,
      append |-> IF ~wf THEN <<>>
                 ELSE IF f.t = "res" THEN Ks(LAMBDA k : Count(f, b) < Cap(f) /\ Count(f, b) + 1 <= LenMax(f.lw), Len(vals))
                 ELSE Ks(LAMBDA k : f.bw + Size(f.e, vals[k]) <= Free(f, b), Len(vals))]
=============================================================================
