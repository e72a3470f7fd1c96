---------------------------- MODULE MarshalCases ----------------------------
(* One call of the marshalling code per step; the step is allowed when what the code did is what the formats prescribe.                *)
EXTENDS Formats
Init0 == {"ready"}
Written(l) ==
  LET n == Size(l.f, l.v) IN
  /\ l.size = n /\ l.end = l.start + n
  /\ Len(l.after) = Len(l.before)
  /\ Cut(l.after, 0, l.start) = Cut(l.before, 0, l.start)
  /\ From(l.after, l.end) = From(l.before, l.end)
  /\ LET w == Cut(l.after, l.start, n) IN Parsable(l.f, w) /\ Parse(l.f, w) = l.v
  /\ l.parsable /\ l.back = << l.v >> /\ l.again = << l.v >>
Ok(l) ==
  CASE l.op = "marshal" -> ~l.panic /\ Written(l)
    [] l.op = "parse" -> ~l.panic /\ l.parsable = Parsable(l.f, l.b) /\ l.v = Opt(l.f, l.b) /\ l.again = l.v
    [] l.op = "read" -> l.obs = Answers(l.f, l.b, [k \in 1..l.n + 1 |-> k - 1], [k \in 1..l.n + 1 |-> k - 1], l.vals)
    [] OTHER -> FALSE          \* the code brought the process down
Succ(x, l) == IF Ok(l) THEN {x} ELSE {}
Agree(x, v) == TRUE
=============================================================================
