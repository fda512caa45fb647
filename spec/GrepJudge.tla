------------------------------ MODULE GrepJudge -----------------------------
(* Recorded searches against GrepSpec. An event holds one search (re,        *)
(* orbits, opts, tab, files) and the runs of the real code on it: with       *)
(* buffers of several sizes and readers of several kinds ("lib"), or by a    *)
(* command ("cmd").                                                          *)
EXTENDS JudgeBase, GrepSpec

SearchHolds(e) ==
  LET want == Search(e.opts, e.re, e.orbits, e.tab, e.caprun, e.files)
  IN \A k \in DOMAIN e.runs :
       LET r == e.runs[k] IN
       /\ (r.small => Assert(\A m \in DOMAIN e.files : FitsBuffer(e.opts, e.tab, e.files[m], r.cap), "buffer too small"))
       /\ Chk(e, "output", r.out = want.out)
       /\ r.via = "lib" =>
            /\ Chk(e, "matched", r.matched = want.any)
            /\ Chk(e, "matches", r.matches = want.matches)
            /\ Chk(e, "limited", r.limited = want.limited)
       /\ r.via = "cmd" => Chk(e, "status", r.exit = (IF want.any THEN 0 ELSE 1))
=============================================================================
