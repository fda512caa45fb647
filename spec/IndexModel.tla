------------------------------ MODULE IndexModel ----------------------------
(* Indexes as mathematical objects: [roots, files]. roots is a sequence of   *)
(* paths; files a sequence of [name, tri], in path order; a file's id is its *)
(* position minus one.                                                       *)
EXTENDS Paths, TextFilter, Query

Names(ix) == [k \in DOMAIN ix.files |-> ix.files[k].name]
Ids(ix) == 0..(Len(ix.files) - 1)
TrigramsOf(ix) == UNION {ix.files[k].tri : k \in DOMAIN ix.files}
Posting(ix, t) == {k - 1 : k \in {j \in DOMAIN ix.files : t \in ix.files[j].tri}}

(* The newer index replaces everything under its roots. *)
MergeIndex(old, new) ==
  LET R == Range(new.roots)
      keep == {k \in DOMAIN old.files : ~UnderAny(old.files[k].name, R)}
      all  == {old.files[k] : k \in keep} \cup Range(new.files)
  IN [roots |-> Sorted(Outermost(Range(old.roots) \cup R)),
      files |-> SetToSortSeq(all, LAMBDA x, y : PathLess(x.name, y.name))]

(* The same for large indexes none of whose files is replaced and whose files come before the new ones: *)
(* x.files are in the order of the names, so nothing needs to be sorted.                                  *)
MergeBehind(old, new) ==
  IF /\ \A k \in DOMAIN old.files : ~UnderAny(old.files[k].name, Range(new.roots))
     /\ PathLess(old.files[Len(old.files)].name, new.files[1].name)
  THEN [roots |-> Sorted(Outermost(Range(old.roots) \cup Range(new.roots))), files |-> old.files \o new.files]
  ELSE MergeIndex(old, new)

(* What was read back from a real index: got.roots, got.names, got.posts (a sequence of [t, ids]). *)
(* Trigrams of the index that are not among got.posts were not found in it.                        *)
ReadsBack(ix, got) ==
  /\ got.names = Names(ix)
  /\ got.roots = ix.roots
  /\ LET ids == TLCEval([t \in TrigramsOf(ix) \cup {got.posts[k].t : k \in DOMAIN got.posts} |-> Posting(ix, t)])
     IN /\ \A k \in DOMAIN got.posts : got.posts[k].ids = SortedInts(ids[got.posts[k].t])
        /\ TrigramsOf(ix) \subseteq {got.posts[k].t : k \in DOMAIN got.posts}
=============================================================================
