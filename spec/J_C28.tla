-------------------------------- MODULE J_C28 -------------------------------
(* C28: commands only read what they index, search and show.                 *)
EXTENDS HistoryJudge, Effects

World(w) == [tree |-> TLCEval([p \in {w.tree[k].p : k \in DOMAIN w.tree} |-> w.tree[CHOOSE k \in DOMAIN w.tree : w.tree[k].p = p].s]),
             index |-> w.index, left |-> Range(w.left)]

Verdict(e) ==
  LET W == TLCEval([k \in DOMAIN e.ops |-> TLCEval(World(e.ops[k].after))])
      T == FoldLeft(LAMBDA a, o : Append(a, TLCEval(TreeAfter(a[Len(a)], o))), <<Tree0>>, e.ops)
  IN \A k \in DOMAIN e.ops :
       LET s == IF k = 1 THEN [tree |-> Tree0, index |-> 0, left |-> {}] ELSE W[k - 1] IN
       /\ Chk(e, "effect of " \o e.ops[k].op, Step(e.ops[k], s, W[k]))
       /\ Chk(e, "tree", TreeIs(W[k].tree, T[k + 1]))
       /\ Chk(e, "duplicate paths", Len(e.ops[k].after.tree) = Cardinality(DOMAIN W[k].tree))

Next == Judge(Verdict)
=============================================================================
