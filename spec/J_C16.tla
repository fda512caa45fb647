-------------------------------- MODULE J_C16 -------------------------------
(* C16: a page for hostile data has the structure of the page for the same   *)
(* data with the characters in e.map replaced by harmless ones, and shows    *)
(* the data.                                                                 *)
EXTENDS WebJudge

Mapped(e, s) == [k \in DOMAIN s |-> LET J == {j \in DOMAIN e.map : e.map[j][1] = s[k]} IN IF J = {} THEN s[k] ELSE e.map[Min(J)][2]]
(* without the time a search took *)
Digit(c) == c \in 48..57
Untimed(s) == LET K == {k \in 2..(Len(s) - 1) : s[k] = 46 /\ Digit(s[k - 1]) /\ Digit(s[k + 1])} IN
              IF K = {} THEN s ELSE SubSeq(s, 1, Max(K) - 2)
VALUE == <<118, 97, 108, 117, 101>>
INPUT == <<105, 110, 112, 117, 116>>
Verdict(e) ==
  LET a == TLCEval(Page(e.page))
      b == TLCEval(Page(e.page2))
      va == IF e.timed THEN Untimed(Shown(e.page, a, 1, Len(a.parts))) ELSE Shown(e.page, a, 1, Len(a.parts))
      vb == IF e.timed THEN Untimed(Shown(e.page2, b, 1, Len(b.parts))) ELSE Shown(e.page2, b, 1, Len(b.parts))
      ia == Elements(e.page, a, INPUT, VALUE, 1)
      ib == Elements(e.page2, b, INPUT, VALUE, 1)
  IN \/ ~e.html \* not a page
     \/ /\ Chk(e, "status", e.code = e.code2)
        /\ Chk(e, "page", a.ok /\ b.ok)
        /\ Chk(e, "structure", Structure(a) = Structure(b))
        /\ Chk(e, "shown", Mapped(e, va) = vb)
        /\ Chk(e, "inputs", [k \in DOMAIN ia |-> Mapped(e, ia[k].v)] = [k \in DOMAIN ib |-> ib[k].v])
Next == Judge(Verdict)
=============================================================================
