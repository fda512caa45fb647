-------------------------------- MODULE J_C01 -------------------------------
(* C01: csearch prints what a scan of every indexed file would print. Events *)
(* are histories of CodeSearch with searches, or single searches ("search")  *)
(* of many files, given in index order.                                      *)
EXTENDS HistoryJudge
SingleHolds(e) ==
  LET want == Search(e.opts, e.re, e.orbits, e.tab, e.caprun, e.files)
  IN \A k \in DOMAIN e.runs : Chk(e, "output", e.runs[k].out = want.out) /\ Chk(e, "status", e.runs[k].exit = (IF want.any THEN 0 ELSE 1))
V(e, env, fs, ix, o) ==
  /\ o.op = "run" => RunHolds(e, o, ix)
  /\ o.op = "search" => SearchOpHolds(e, env, fs, ix, o)
Verdict(e) == IF e.kind = "search"
              THEN Assert(StrictlySorted([k \in DOMAIN e.files |-> e.files[k].name]), "order") /\ SingleHolds(e)
              ELSE HistoryHolds(e, V)
Next == Judge(Verdict)
=============================================================================
