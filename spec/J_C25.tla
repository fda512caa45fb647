-------------------------------- MODULE J_C25 -------------------------------
(* C25: csweb shows the lines csearch prints. *)
EXTENDS WebJudge
Next == Judge(WebHolds)
=============================================================================
