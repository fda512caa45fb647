----------------------------- MODULE IndexJudge -----------------------------
(* From recorded JSON to the objects of IndexModel.                          *)
EXTENDS JudgeBase, IndexModel

(* given explicitly *)
ToIndex(x) == [roots |-> x.roots, files |-> [k \in DOMAIN x.files |-> [name |-> x.files[k].name, tri |-> Range(x.files[k].tri)]]]

(* Which files are accepted. Contents that the specification leaves free do not occur in the recorded scenarios *)
(* except where a judge handles them itself.                                                                    *)
Accepted(files, contents) ==
  LET ok == TLCEval([c \in {files[k].c : k \in DOMAIN files} |-> Eligible(contents[c])])
  IN SelectSeq(files, LAMBDA f : ValidStored(f.name) /\ ~f.fail /\ ok[f.c] = "yes")

(* the index of a sequence of files [name, c, fail] *)
IndexOf(roots, files, contents) ==
  LET tri == TLCEval([c \in {files[k].c : k \in DOMAIN files} |-> TLCEval(Trigrams(contents[c]))])
      acc == Accepted(files, contents)
  IN [roots |-> roots, files |-> TLCEval([k \in DOMAIN acc |-> [name |-> acc[k].name, tri |-> tri[acc[k].c]]])]

(* recorded operations on an index *)
PostMap(ix, T) == TLCEval([t \in T |-> TLCEval(Posting(ix, t))])
QTri(q) == {q.tri[k] : k \in DOMAIN q.tri}
RECURSIVE AllTri(_)
AllTri(q) == QTri(q) \cup UNION {AllTri(q.sub[k]) : k \in DOMAIN q.sub}
OpsHold(ix, ops) ==
  LET T == UNION {AllTri(ops[k].q) \cup {ops[k].t} : k \in DOMAIN ops}
      post == PostMap(ix, T)
      all == Ids(ix)
      Want(o) == CASE o.op = "list" -> post[o.t]
                   [] o.op = "and" -> Range(o.arg) \cap post[o.t]
                   [] o.op = "or" -> Range(o.arg) \cup post[o.t]
                   [] o.op = "query" -> Eval(o.q, post, all)
  IN \A k \in DOMAIN ops : ops[k].got = SortedInts(Want(ops[k]))

(* recorded readings of ranges of names *)
ProbesHold(names, probes) ==
  \A k \in DOMAIN probes :
    LET p == probes[k] IN p.got = SubSeq(names, p.lo + 1, IF p.hi < Len(names) THEN p.hi ELSE Len(names))

(* a chain of merges: got[k] is what the k-th merge gave *)
RECURSIVE MergesHold(_, _, _, _)
MergesHold(e, cur, in, got) ==
  IF got = <<>> THEN TRUE
  ELSE LET m == MergeIndex(cur, Head(in))
       IN /\ Chk(e, "merge", ReadsBack(m, Head(got)))
          /\ MergesHold(e, m, Tail(in), Tail(got))
=============================================================================
