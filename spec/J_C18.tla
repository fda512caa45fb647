-------------------------------- MODULE J_C18 -------------------------------
(* C18: histories with zip archives, and searches.                           *)
EXTENDS HistoryJudge
V(e, env, fs, ix, o) ==
  /\ o.op = "run" => RunHolds(e, o, ix)
  /\ o.op = "search" => SearchOpHolds(e, env, fs, ix, o)
Verdict(e) == HistoryHolds(e, V)
Next == Judge(Verdict)
=============================================================================
