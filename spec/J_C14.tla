-------------------------------- MODULE J_C14 -------------------------------
(* C14: counts, lists, limits, exit status. *)
EXTENDS GrepJudge
Verdict(e) == SearchHolds(e)
Next == Judge(Verdict)
=============================================================================
