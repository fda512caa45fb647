-------------------------------- MODULE J_C27 -------------------------------
(* C27: csweb goes on. *)
EXTENDS JudgeBase, WebKinds
Verdict(e) ==
  /\ e.kind = "repeated" => Chk(e, "resources", Modest(e.before, e.after))
  /\ \A k \in DOMAIN e.reqs :
      LET r == e.reqs[k]
      IN /\ Chk(e, "kind", r.kind \in Kinds)
         /\ Chk(e, r.kind, Answers(r.kind, r, e.index, {r.vers[j] : j \in DOMAIN r.vers}))
Next == Judge(Verdict)
=============================================================================
