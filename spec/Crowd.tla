-------------------------------- MODULE Crowd -------------------------------
(* Indexes of very many files, described by blocks: a block                  *)
(* [name, lo, hi, c, fail] stands for the files name \o d, where d is the    *)
(* seven digits of a number of lo..hi-1, all with content c. name ends in a  *)
(* slash; the blocks of one index do not overlap and are in the order of     *)
(* their files. Lists of ids are given by their maximal runs <<lo, hi>>      *)
(* (hi not included), which say exactly what the list is.                    *)
EXTENDS IndexJudge

(* the blocks that are accepted, with the trigrams of their files *)
CrowdOf(roots, blocks, contents) ==
  LET tri == TLCEval([c \in {blocks[k].c : k \in DOMAIN blocks} |-> TLCEval(Trigrams(contents[c]))])
      acc == Accepted(blocks, contents)
  IN [roots |-> roots,
      files |-> TLCEval([k \in DOMAIN acc |-> [name |-> acc[k].name, lo |-> acc[k].lo, hi |-> acc[k].hi, tri |-> tri[acc[k].c]]])]

BlockLess(x, y) == PathLess(x.name, y.name) \/ (x.name = y.name /\ x.lo < y.lo)

(* MergeIndex, block by block: a block lies under a root iff all its files do (no root lies in a block) *)
MergeCrowd(old, new) ==
  LET R == Range(new.roots)
      keep == {k \in DOMAIN old.files : ~UnderAny(old.files[k].name, R)}
      all == {old.files[k] : k \in keep} \cup Range(new.files)
  IN [roots |-> Sorted(Outermost(Range(old.roots) \cup R)),
      files |-> SetToSortSeq(all, BlockLess)]

Size(b) == b.hi - b.lo
Total(ix) == FoldLeft(LAMBDA a, b : a + Size(b), 0, ix.files)

(* s with the run <<lo, hi>> behind it *)
AddRun(s, lo, hi) ==
  IF lo = hi THEN s
  ELSE IF s # <<>> /\ s[Len(s)][2] = lo THEN [s EXCEPT ![Len(s)] = <<@[1], hi>>]
  ELSE Append(s, <<lo, hi>>)

(* the ids of the files of the blocks B (block k is number k - 1) *)
IdRuns(ix, B) ==
  FoldLeft(LAMBDA a, k : [at |-> a.at + Size(ix.files[k]),
                          runs |-> IF (k - 1) \in B THEN AddRun(a.runs, a.at, a.at + Size(ix.files[k])) ELSE a.runs],
           [at |-> 0, runs |-> <<>>], [k \in DOMAIN ix.files |-> k]).runs

(* the names of the ids lo..hi-1, as runs [name, lo, hi] *)
AddNames(s, n, lo, hi) ==
  IF lo >= hi THEN s
  ELSE IF s # <<>> /\ s[Len(s)].name = n /\ s[Len(s)].hi = lo THEN [s EXCEPT ![Len(s)] = [name |-> n, lo |-> @.lo, hi |-> hi]]
  ELSE Append(s, [name |-> n, lo |-> lo, hi |-> hi])
NameRuns(ix, lo, hi) ==
  FoldLeft(LAMBDA a, b : [at |-> a.at + Size(b),
                          runs |-> AddNames(a.runs, b.name,
                                            b.lo + (IF lo > a.at THEN lo - a.at ELSE 0),
                                            IF hi < a.at + Size(b) THEN b.lo + hi - a.at ELSE b.hi)],
           [at |-> 0, runs |-> <<>>], ix.files).runs

CrowdReadsBack(ix, got) ==
  /\ got.roots = ix.roots
  /\ got.names = NameRuns(ix, 0, Total(ix))
  /\ \A k \in DOMAIN got.probes : got.probes[k].got = NameRuns(ix, got.probes[k].lo, got.probes[k].hi)
  /\ \A k \in DOMAIN got.posts : got.posts[k].runs = IdRuns(ix, Posting(ix, got.posts[k].t))
  /\ TrigramsOf(ix) \subseteq {got.posts[k].t : k \in DOMAIN got.posts}

(* operations: their arguments are given by blocks, and what they return by runs *)
CrowdOps(ix, ops) ==
  LET T == UNION {AllTri(ops[k].q) \cup {ops[k].t} : k \in DOMAIN ops}
      post == PostMap(ix, T)
      all == Ids(ix)
      Want(o) == CASE o.op = "list" -> post[o.t]
                   [] o.op = "and" -> Range(o.arg) \cap post[o.t]
                   [] o.op = "or" -> Range(o.arg) \cup post[o.t]
                   [] o.op = "query" -> Eval(o.q, post, all)
  IN \A k \in DOMAIN ops : ops[k].got = IdRuns(ix, Want(ops[k]))

(* a build and the merges that follow it *)
RECURSIVE CrowdChain(_, _, _, _)
CrowdChain(e, cur, in, got) ==
  /\ Chk(e, "crowd", CrowdReadsBack(cur, Head(got)))
  /\ IF in = <<>> THEN Chk(e, "operations", CrowdOps(cur, e.ops))
     ELSE CrowdChain(e, TLCEval(MergeCrowd(cur, Head(in))), Tail(in), Tail(got))

CrowdHolds(e) ==
  LET in == TLCEval([k \in DOMAIN e.in |-> TLCEval(CrowdOf(e.in[k].roots, e.in[k].files, e.contents))])
  IN CrowdChain(e, Head(in), Tail(in), e.got)
=============================================================================
