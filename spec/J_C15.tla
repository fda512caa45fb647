-------------------------------- MODULE J_C15 -------------------------------
(* C15: the order of paths, and reading names back.                          *)
EXTENDS Crowd

Sign(p, q) == IF PathLess(p, q) THEN -1 ELSE IF PathLess(q, p) THEN 1 ELSE 0

Verdict(e) ==
  CASE e.kind = "compare" -> \A k \in DOMAIN e.pairs : Chk(e, "order", e.pairs[k].got = Sign(e.pairs[k].p, e.pairs[k].q))
    [] e.kind = "names" -> Chk(e, "sorted", StrictlySorted(e.names)) /\ Chk(e, "names", ProbesHold(e.names, e.probes))
    [] OTHER -> FALSE

WithCrowds(e) == IF e.kind = "crowd" THEN CrowdHolds(e) ELSE Verdict(e)

Next == Judge(WithCrowds)
=============================================================================
