-------------------------------- MODULE J_C13 -------------------------------
(* C13: context. *)
EXTENDS GrepJudge
Verdict(e) == SearchHolds(e)
Next == Judge(Verdict)
=============================================================================
