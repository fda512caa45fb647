-------------------------------- MODULE J_C12 -------------------------------
(* C12: every matching line once, in order, numbered. *)
EXTENDS GrepJudge
Verdict(e) == SearchHolds(e)
Next == Judge(Verdict)
=============================================================================
