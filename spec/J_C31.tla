-------------------------------- MODULE J_C31 -------------------------------
(* C31: commands work on the index they are told to, and on no other.        *)
(*                                                                           *)
(* e.ops[k].after says at which places there was an index after operation k, *)
(* and under which stamp; e.table has what was read from each stamp (st, and *)
(* got if it is sound). got.posts lists all trigrams.                        *)
EXTENDS HistoryJudge, Commands

Stamps(a) == [L \in {a[k].at : k \in DOMAIN a} |-> a[CHOOSE k \in DOMAIN a : a[k].at = L].s]

Verdict(e) ==
  LET env == TLCEval(EnvOf(e))
      s0 == [fs |-> Tree0, dirs |-> <<>>, ixs |-> <<>>]
      S == FoldLeft(LAMBDA a, o : Append(a, TLCEval(After(env, a[Len(a)], o))), <<s0>>, e.ops)
      W == TLCEval([k \in DOMAIN e.ops |-> TLCEval(Stamps(e.ops[k].after))])
  IN \A k \in DOMAIN e.ops :
       LET o == e.ops[k]
           s == S[k]
           t == S[k + 1]
           before == IF k = 1 THEN <<>> ELSE W[k - 1]
           now == W[k]
       IN /\ Assert(Decided(s, o), "not decided")
          /\ Chk(e, "where there are indexes", DOMAIN now = DOMAIN t.ixs)
          /\ \A L \in DOMAIN t.ixs :
               IF L \in DOMAIN s.ixs /\ ~(IsCommand(o) /\ L = Location(o) /\ t.ixs[L].st = "sound" /\ Command(env, s, o).ok /\ o.op = "cindex" /\ ~o.list)
                    /\ ~(o.op \in {"spoil", "copy"})
               THEN Chk(e, "other indexes", before[L] = now[L])
               ELSE /\ Chk(e, "state of the index", e.table[now[L]].st = t.ixs[L].st)
                    /\ t.ixs[L].st = "sound" => Chk(e, "contents of the index", ReadsBack(t.ixs[L].index, e.table[now[L]].got))
          /\ IsCommand(o) =>
               LET c == Command(env, s, o) IN
               /\ Chk(e, "status of " \o o.op, (o.exit = 0) = c.ok)
               /\ Chk(e, "output of " \o o.op, Range(o.out) = c.out)
               /\ (o.op = "cindex" /\ o.list /\ c.ok) => Chk(e, "order of the list", o.out = At(s, Location(o)).index.roots)
               /\ o.op = "csearch" => Chk(e, "repeated names", Len(o.out) = Cardinality(c.out))

Next == Judge(Verdict)
=============================================================================
