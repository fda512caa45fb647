-------------------------------- MODULE J_C07 -------------------------------
(* C07: after every run of a history the index is the one of CodeSearch.     *)
EXTENDS HistoryJudge
V(e, env, fs, ix, o) == o.op = "run" => RunHolds(e, o, ix)
Verdict(e) == HistoryHolds(e, V)
Next == Judge(Verdict)
=============================================================================
