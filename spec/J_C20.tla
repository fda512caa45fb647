-------------------------------- MODULE J_C20 -------------------------------
(* C20: indexes in the older format.                                         *)
EXTENDS Crowd

Verdict(e) ==
  CASE e.kind = "v1" ->
       LET ix == IndexOf(e.roots, e.files, e.contents) IN
       /\ Chk(e, "format", e.format = 1)
       /\ Chk(e, "index", ReadsBack(ix, e.got))
       /\ Chk(e, "operations", OpsHold(ix, e.ops))
    [] e.kind = "v1-slice" ->
       LET ix == ToIndex(e.ix) IN
       /\ Chk(e, "format", e.format = 1)
       /\ Chk(e, "index", ReadsBack(ix, e.got))
       /\ Chk(e, "operations", OpsHold(ix, e.ops))
    [] e.kind = "v1merge-slice" ->
       LET in == TLCEval([k \in DOMAIN e.in |-> TLCEval(ToIndex(e.in[k]))])
       IN /\ Chk(e, "format", e.format = 2)
          /\ Chk(e, "merge", ReadsBack(MergeBehind(in[1], in[2]), e.got))
    [] e.kind = "names" -> Chk(e, "names", ProbesHold(e.names, e.probes))
    [] e.kind = "v1merge" ->
       LET in == TLCEval([k \in DOMAIN e.in |-> TLCEval(IndexOf(e.in[k].roots, e.in[k].files, e.contents))])
           m  == MergeIndex(in[1], in[2])
       IN /\ Chk(e, "format", e.format = 2)
          /\ Chk(e, "merge", ReadsBack(m, e.got[1]))
          /\ Chk(e, "operations", OpsHold(m, e.ops))
    [] OTHER -> FALSE

WithCrowds(e) == IF e.kind = "crowd" THEN CrowdHolds(e) ELSE Verdict(e)

Next == Judge(WithCrowds)
=============================================================================
