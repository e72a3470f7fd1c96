------------------------------ MODULE SeqStore ------------------------------
(* A sequence kept in a byte buffer and updated in place.  x.slots are the elements that can be read (for a resizable sequence all its  *)
(* slots, of which the first x.len are in use; for variable-size elements exactly the elements), x.out the bytes of the buffer that     *)
(* do not belong to the sequence and must never change.                                                                                 *)
EXTENDS Formats
CONSTANTS F, Vals, Probes, Sizes, Starts
Init0 == Starts
FreeBytes(x) == F.total - F.lw - Len(x.slots) * F.bw - Sum([k \in 1..Len(x.slots) |-> Size(F.e, x.slots[k])])
CanAppend(x, v) ==
  CASE F.t = "uni" -> FALSE
    [] F.t = "res" -> x.len < Len(x.slots) /\ x.len + 1 <= LenMax(F.lw)
    [] F.t = "var" -> F.bw + Size(F.e, v) <= FreeBytes(x)
CanResize(x, n) == F.t = "res" /\ n <= Len(x.slots) /\ n <= LenMax(F.lw)
CanSet(x, i) == F.t # "var" /\ i < Len(x.slots)
Succ(x, l) ==
  CASE l.op = "set" -> IF CanSet(x, l.i) THEN { [x EXCEPT !.slots[l.i + 1] = Vals[l.k]] } ELSE {}
    [] l.op = "resize" -> IF CanResize(x, l.n) THEN { [x EXCEPT !.len = l.n] } ELSE {}
    [] l.op = "append" -> IF ~CanAppend(x, Vals[l.k]) THEN {}
                          ELSE IF F.t = "var" THEN { [x EXCEPT !.slots = Append(@, Vals[l.k]), !.len = @ + 1] }
                          ELSE { [x EXCEPT !.slots[x.len + 1] = Vals[l.k], !.len = @ + 1] }
    [] OTHER -> {}
Agree(x, v) ==
  /\ v.out = x.out
  /\ "len" \in DOMAIN v.obs
  /\ v.obs.len = x.len
  /\ LET gs == SelectSeq(Probes, LAMBDA i : i < Len(x.slots)) IN
       /\ Len(v.obs.get) = Len(gs)
       /\ \A k \in 1..Len(gs) : v.obs.get[k].i = gs[k] /\ v.obs.get[k].v = << x.slots[gs[k] + 1] >>
  /\ v.obs.set = SelectSeq(Probes, LAMBDA i : CanSet(x, i))
  /\ v.obs.resize = SelectSeq(Sizes, LAMBDA n : CanResize(x, n))
  /\ v.obs.append = Ks(LAMBDA k : CanAppend(x, Vals[k]), Len(Vals))
  /\ v.obs.wf = (F.t # "uni")
  /\ F.t # "var" => v.whole = << SubSeq(x.slots, 1, x.len) >>
=============================================================================
