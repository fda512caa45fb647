-------------------------------- MODULE J_C03 -------------------------------
(* C03: a posting query returns exactly the files that satisfy it.           *)
EXTENDS Crowd

(* Eval works on sets of ids; Satisfies says the same file by file. *)
EvalAgrees(ix, o) ==
  o.op = "query" => o.got = SortedInts({k - 1 : k \in {j \in DOMAIN ix.files : Satisfies(o.q, ix.files[j].tri)}})

Verdict(e) ==
  LET ix == ToIndex(e.ix) IN
  /\ Chk(e, "operations", OpsHold(ix, e.ops))
  /\ Chk(e, "satisfies", Len(ix.files) > 100 \/ \A k \in DOMAIN e.ops : EvalAgrees(ix, e.ops[k]))

WithCrowds(e) == IF e.kind = "crowd" THEN CrowdHolds(e) ELSE Verdict(e)

Next == Judge(WithCrowds)
=============================================================================
