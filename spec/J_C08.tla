-------------------------------- MODULE J_C08 -------------------------------
(* C08: whatever happens to a run, the index is the one from before or the   *)
(* one the run would have made, and the next run is as if nothing had been.  *)
(* e.seen: the indexes there were; o.ix: which one there is after the run.   *)
EXTENDS HistoryJudge

(* large files are recorded with the trigrams that were looked for only *)
Env8(e) ==
  LET env == EnvOf(e)
      big == {e.sampled[k].c : k \in DOMAIN e.sampled}
      tri(c) == Range(e.sampled[CHOOSE k \in DOMAIN e.sampled : e.sampled[k].c = c].tri)
  IN [elig |-> TLCEval([c \in DOMAIN e.contents |-> c \in big \/ env.elig[c]]),
      tri |-> TLCEval([c \in DOMAIN e.contents |-> IF c \in big THEN TLCEval(tri(c)) ELSE env.tri[c]]),
      arch |-> env.arch]

Sampled(e) == UNION {Range(e.sampled[k].tri) : k \in DOMAIN e.sampled}

Reads(e, ix, got) ==
  /\ got.names = Names(ix)
  /\ got.roots = ix.roots
  /\ LET asked == {got.posts[k].t : k \in DOMAIN got.posts}
         ids == TLCEval([t \in asked |-> Posting(ix, t)])
     IN /\ \A k \in DOMAIN got.posts : got.posts[k].ids = SortedInts(ids[got.posts[k].t])
        /\ TrigramsOf(ix) \ Sampled(e) \subseteq asked

Is(e, o, ix) ==
  /\ o.ix # 0
  /\ LET s == e.seen[o.ix] IN s.exists /\ s.listexit = 0 /\ s.list = ix.roots /\ Reads(e, ix, s.got)

Holds(e, o, old, new) ==
  IF o.fault = ""
  THEN /\ Chk(e, "exit status", o.exit = 0)
       /\ Chk(e, "files left behind", o.left = <<>>)
       /\ Chk(e, "index", Is(e, o, new))
  ELSE /\ Chk(e, "index after " \o o.fault, Is(e, o, new) \/ (old.exists /\ Is(e, o, old)))
       /\ Chk(e, "success after " \o o.fault, o.exit = 0 => Is(e, o, new))

Step(e, env, s, o) ==
  CASE o.op = "save" -> [s EXCEPT !.saved = s.ix]
    [] o.op = "restore" -> [s EXCEPT !.ix = s.saved]
    [] o.op = "run" -> LET new == TLCEval(RunIndex(env, s.fs, s.ix, Range(o.args), o.reset, o.zip))
                       IN [s EXCEPT !.ok = s.ok /\ Holds(e, o, s.ix, new), !.ix = IF Is(e, o, new) THEN new ELSE s.ix]
    [] OTHER -> [s EXCEPT !.fs = TLCEval(TreeAfter(s.fs, o))]

Verdict(e) ==
  LET env == TLCEval(Env8(e))
      s0 == [fs |-> Tree0, ix |-> NoIndex, saved |-> NoIndex, ok |-> TRUE]
  IN FoldLeft(LAMBDA s, o : TLCEval(Step(e, env, s, o)), s0, e.ops).ok
Next == Judge(Verdict)
=============================================================================
