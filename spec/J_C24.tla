-------------------------------- MODULE J_C24 -------------------------------
(* C24: a search at any time gives what it gives on one of the versions of   *)
(* the index it may have seen. e.cands: the files of those versions.         *)
EXTENDS GrepJudge
W == INSTANCE WebJudge
With(e, c) == [e EXCEPT !.files = [k \in DOMAIN c |-> e.files[c[k]]]]
Filtered(e) == IF "fre" \in DOMAIN e THEN [e EXCEPT !.files = W!Chosen(e)] ELSE e
Verdict(e) ==
  CASE e.kind = "limit" -> W!LimitHolds(e)
    [] e.kind = "results" -> \E k \in DOMAIN e.cands : W!ResultsHold(With(e, e.cands[k]))
    [] OTHER -> \E k \in DOMAIN e.cands : SearchHolds(Filtered(With(e, e.cands[k])))
Next == Judge(Verdict)
=============================================================================
