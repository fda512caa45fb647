-------------------------------- MODULE J_C26 -------------------------------
(* C26: searches with an index that is out of date.                          *)
EXTENDS HistoryJudge
V(e, env, fs, ix, o) ==
  /\ o.op = "run" => RunHolds(e, o, ix)
  /\ o.op = "stale" => StaleOpHolds(e, env, fs, ix, o)
Verdict(e) == HistoryHolds(e, V)
Next == Judge(Verdict)
=============================================================================
