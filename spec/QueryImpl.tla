------------------------------ MODULE QueryImpl -----------------------------
(* The evaluation of queries with a restricting list passed down, as the     *)
(* code does it, against the definition (C03).                               *)
EXTENDS Query

CONSTANTS NFiles, Pairs

Ids == 0..(NFiles - 1)
None == <<-1>>          \* "no list" as opposed to an empty one
Tri == {1, 2}

Q(op, tri, sub) == [op |-> op, tri |-> tri, sub |-> sub]
TriSeqs == {<<>>, <<1>>, <<2>>, <<1, 2>>}
Q0 == {Q("all", <<>>, <<>>), Q("none", <<>>, <<>>)} \cup {Q(o, t, <<>>) : o \in {"and", "or"}, t \in TriSeqs \ {<<>>}}
Over(S, T) == {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in T}
Q1 == {Q(o, t, s) : o \in {"and", "or"}, t \in TriSeqs, s \in Over(Q0, Q0)}
Q2 == {Q(o, t, s) : o \in {"and", "or"}, t \in TriSeqs, s \in IF Pairs THEN Over(Q1, Q0) ELSE {<<x>> : x \in Q1}}

VARIABLES post, q
Init == post \in [Tri -> SUBSET Ids] /\ q \in Q0 \cup Q1 \cup Q2
Next == UNCHANGED <<post, q>>

Sort(S) == SortedInts(S)
List(t, restrict) == IF restrict = None THEN Sort(post[t]) ELSE Sort(post[t] \cap Range(restrict))
And(l, t, restrict) == SelectSeq(l, LAMBDA x : x \in Range(List(t, restrict)))
Or(l, t, restrict) == Sort(Range(l) \cup Range(List(t, restrict)))

RECURSIVE PQ(_, _)
RECURSIVE AndSubs(_, _, _)
RECURSIVE OrSubs(_, _, _)
AndSubs(list, sub, restrict) ==
  IF sub = <<>> THEN list
  ELSE LET l == PQ(Head(sub), IF list = None THEN restrict ELSE list)
       IN IF l = <<>> \/ l = None THEN <<>> ELSE AndSubs(l, Tail(sub), restrict)
RECURSIVE AndTris(_, _, _)
AndTris(list, tri, restrict) ==
  IF tri = <<>> THEN list
  ELSE LET l == IF list = None THEN List(Head(tri), restrict) ELSE And(list, Head(tri), restrict)
       IN IF l = <<>> THEN <<>> ELSE AndTris(l, Tail(tri), restrict)
OrSubs(list, sub, restrict) ==
  IF sub = <<>> THEN list
  ELSE LET l == PQ(Head(sub), restrict)
       IN OrSubs(Sort((IF list = None THEN {} ELSE Range(list)) \cup (IF l = None THEN {} ELSE Range(l))), Tail(sub), restrict)
RECURSIVE OrTris(_, _, _)
OrTris(list, tri, restrict) ==
  IF tri = <<>> THEN list
  ELSE OrTris(IF list = None THEN List(Head(tri), restrict) ELSE Or(list, Head(tri), restrict), Tail(tri), restrict)

PQ(x, restrict) ==
  CASE x.op = "none" -> None
    [] x.op = "all" -> IF restrict # None THEN restrict ELSE Sort(Ids)
    [] x.op = "and" -> LET l == AndTris(None, x.tri, restrict) IN IF l = <<>> THEN <<>> ELSE AndSubs(l, x.sub, restrict)
    [] x.op = "or" -> OrSubs(OrTris(None, x.tri, restrict), x.sub, restrict)

Plain(l) == IF l = None THEN <<>> ELSE l
Correct == Plain(PQ(q, None)) = Sort(Eval(q, post, Ids))
FileByFile == Eval(q, post, Ids) = {i \in Ids : Satisfies(q, {t \in Tri : i \in post[t]})}
=============================================================================
