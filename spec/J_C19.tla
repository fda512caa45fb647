-------------------------------- MODULE J_C19 -------------------------------
(* C19: a filter leaves the results of the files whose names it matches, in  *)
(* the same order. e.fre: the filter, not multi-line, not affected by -i.    *)
(* Searches by csearch ("search") and pages of csweb ("results").            *)
EXTENDS WebJudge
GJ == INSTANCE GrepJudge WITH i <- i, st <- st
Verdict(e) == IF e.kind = "search" THEN GJ!SearchHolds([e EXCEPT !.files = Chosen(e)]) ELSE WebHolds(e)
Next == Judge(Verdict)
=============================================================================
