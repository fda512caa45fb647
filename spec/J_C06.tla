-------------------------------- MODULE J_C06 -------------------------------
(* C06: merging is MergeIndex, also repeatedly.                              *)
EXTENDS Crowd

Verdict(e) ==
  LET in == TLCEval([k \in DOMAIN e.in |-> TLCEval(IndexOf(e.in[k].roots, e.in[k].files, e.contents))])
  IN MergesHold(e, Head(in), Tail(in), e.got)

WithCrowds(e) == IF e.kind = "crowd" THEN CrowdHolds(e) ELSE Verdict(e)

Next == Judge(WithCrowds)
=============================================================================
