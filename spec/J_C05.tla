-------------------------------- MODULE J_C05 -------------------------------
(* C05: the index holds the accepted names and their trigrams.               *)
EXTENDS IndexBuild, Crowd
Verdict(e) == BuildHolds(e)
WithCrowds(e) == IF e.kind = "crowd" THEN CrowdHolds(e) ELSE Verdict(e)

Next == Judge(WithCrowds)
=============================================================================
