----------------------------- MODULE IndexBuild -----------------------------
(* What an index built from files must hold, whatever the spilling (C04, C05). *)
EXTENDS IndexJudge

BuildHolds(e) ==
  CASE e.kind = "build" ->
       Chk(e, "index", ReadsBack(IndexOf(e.roots, e.files, e.contents), e.got))
    [] e.kind = "build-slice" ->
       LET ix == ToIndex(e.ix) IN
       /\ Chk(e, "names", e.got.names = Names(ix))
       /\ Chk(e, "roots", e.got.roots = ix.roots)
       /\ LET post == PostMap(ix, Range(e.trigrams)) IN
          /\ Chk(e, "postings", \A k \in DOMAIN e.got.posts : e.got.posts[k].ids = SortedInts(post[e.got.posts[k].t]))
          /\ Chk(e, "all", {t \in Range(e.trigrams) : post[t] # {}} \subseteq {e.got.posts[k].t : k \in DOMAIN e.got.posts})
    [] OTHER -> FALSE
=============================================================================
