-------------------------------- MODULE J_C29 -------------------------------
(* C29: the query of an expression is no weaker than its literal text        *)
(* ("narrow"), and searches open only the files it allows ("opens").         *)
EXTENDS JudgeBase, Narrow

NameChosen(e, name) == ~e.filtered \/ LineMatches(e.fre, name, [bot |-> TRUE, eot |-> TRUE], Flags(e.forbits))

Verdict(e) ==
  LET D == DemandsOf(e) IN
  /\ Chk(e, "made of other parts than it should be", Differ(e.re, FALSE, OrbitMap(e.orbits)))
  /\ IF e.kind = "narrow"
     THEN Chk(e, "weaker than the literal text", \A d \in D : ~HoldsWithout(e.query, d))
     ELSE Chk(e, "opened", \A k \in DOMAIN e.paths : e.paths[k].opened =>
            \E m \in DOMAIN e.paths[k].entries : LET x == e.paths[k].entries[m] IN
               NameChosen(e, x.name) /\ (e.brute \/ Worth(D, x.data)))

Next == Judge(Verdict)
=============================================================================
