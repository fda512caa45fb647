------------------------------ MODULE MergeImpl -----------------------------
(* The merge algorithm: one scan over both name lists, root by root, makes   *)
(* tables of id ranges [lo, hi) -> new; names are written by the tables, and *)
(* posting lists translated with them. Checked against MergeIndex for every  *)
(* pair of small indexes (C06).                                              *)
EXTENDS IndexModel, Json

CONSTANTS Universe, RootPool, MaxRoots, MaxOld, MaxNew

VARIABLES old, new
vars == <<old, new>>

Antichain(R) == Outermost(R) = R
IndexOver(S, R, salt) ==
  LET s == Sorted(S) IN [roots |-> Sorted(R), files |-> [k \in DOMAIN s |-> [name |-> s[k], tri |-> {salt, 10 + Len(s[k])}]]]

RootSets == {R \in UNION {kSubset(n, RootPool) : n \in 1..MaxRoots} : Antichain(R)}
FilesUnder(R, max) == LET F == {u \in Universe : UnderAny(u, R)}
                      IN UNION {kSubset(n, F) : n \in 0..Min({max, Cardinality(F)})}

Init == /\ \E R \in RootSets : \E S \in FilesUnder(R, MaxOld) : old = IndexOver(S, R, 1)
        /\ \E R \in RootSets : \E S \in FilesUnder(R, MaxNew) : new = IndexOver(S, R, 2)
Next == UNCHANGED vars
\* hands the pair to the driver, which merges such indexes with the real code
Pair(x) == [roots |-> x.roots, names |-> [k \in DOMAIN x.files |-> x.files[k].name]]
Show == UNCHANGED vars /\ PrintT("GEN " \o ToJson([old |-> Pair(old), new |-> Pair(new)]))

----------------------------------------------------------------------------
N1 == Names(old)
N2 == Names(new)
\* first position >= k (from 0) whose name is not less than x
RECURSIVE Skip(_, _, _)
Skip(names, k, x) == IF k < Len(names) /\ PathLess(names[k + 1], x) THEN Skip(names, k + 1, x) ELSE k

Limit(root) == IF root[Len(root)] = SLASH THEN SubSeq(root, 1, Len(root) - 1) \o <<2>> ELSE root \o <<2>>

Scan ==
  LET step(a, root) ==
        LET lo1 == Skip(N1, a.i1, root)
            hi1 == Skip(N1, lo1, Limit(root))
            n1  == a.n + (lo1 - a.i1)
            hi2 == Skip(N2, a.i2, Limit(root))
        IN [i1 |-> hi1, i2 |-> hi2, n |-> n1 + (hi2 - a.i2),
            bad |-> a.bad \/ (a.i2 < Len(N2) /\ PathLess(N2[a.i2 + 1], root)),
            m1 |-> IF a.i1 < lo1 THEN Append(a.m1, [lo |-> a.i1, hi |-> lo1, new |-> a.n]) ELSE a.m1,
            m2 |-> IF a.i2 < hi2 THEN Append(a.m2, [lo |-> a.i2, hi |-> hi2, new |-> n1]) ELSE a.m2]
      s == FoldLeft(step, [i1 |-> 0, i2 |-> 0, n |-> 0, bad |-> FALSE, m1 |-> <<>>, m2 |-> <<>>], new.roots)
  IN [bad |-> s.bad \/ s.i2 < Len(N2),
      m1 |-> IF s.i1 < Len(N1) THEN Append(s.m1, [lo |-> s.i1, hi |-> Len(N1), new |-> s.n]) ELSE s.m1,
      m2 |-> s.m2, n |-> s.n + (Len(N1) - s.i1)]

\* names written by the tables: those whose turn it is
RECURSIVE WriteNames(_, _, _, _)
WriteNames(m1, m2, total, o) ==
  IF Len(o) = total THEN o
  ELSE IF m1 # <<>> /\ Head(m1).new = Len(o) THEN WriteNames(Tail(m1), m2, total, o \o SubSeq(N1, Head(m1).lo + 1, Head(m1).hi))
  ELSE IF m2 # <<>> /\ Head(m2).new = Len(o) THEN WriteNames(m1, Tail(m2), total, o \o SubSeq(N2, Head(m2).lo + 1, Head(m2).hi))
  ELSE <<"inconsistent">>

\* roots: both sorted lists together, without those under the last one written
HasPathPrefix(p, q) == /\ Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
                       /\ Len(p) = Len(q) \/ p[Len(q) + 1] = SLASH \/ q[Len(q)] = SLASH
RECURSIVE WriteRoots(_, _, _, _)
WriteRoots(r1, r2, last, o) ==
  IF r1 = <<>> /\ r2 = <<>> THEN o
  ELSE LET first == r2 = <<>> \/ (r1 # <<>> /\ ~PathLess(Head(r2), Head(r1)))
           p == IF first THEN Head(r1) ELSE Head(r2)
           skip == last # <<>> /\ HasPathPrefix(p, last)
       IN WriteRoots(IF first THEN Tail(r1) ELSE r1, IF first THEN r2 ELSE Tail(r2),
                     IF skip THEN last ELSE p, IF skip THEN o ELSE Append(o, p))

\* a posting list through a table, with a pointer that only moves forward
RECURSIVE MapIds(_, _)
MapIds(ids, m) ==
  IF ids = <<>> \/ m = <<>> THEN <<>>
  ELSE IF Head(m).hi <= Head(ids) THEN MapIds(ids, Tail(m))
  ELSE IF Head(ids) < Head(m).lo THEN MapIds(Tail(ids), m)
  ELSE <<Head(m).new + Head(ids) - Head(m).lo>> \o MapIds(Tail(ids), m)

RECURSIVE MergeIds(_, _)
MergeIds(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                  ELSE IF Head(a) < Head(b) THEN <<Head(a)>> \o MergeIds(Tail(a), b) ELSE <<Head(b)>> \o MergeIds(a, Tail(b))

Correct ==
  LET s == Scan
      m == MergeIndex(old, new)
  IN /\ ~s.bad
     /\ WriteNames(s.m1, s.m2, s.n, <<>>) = Names(m)
     /\ WriteRoots(old.roots, new.roots, <<>>, <<>>) = m.roots
     /\ \A t \in TrigramsOf(old) \cup TrigramsOf(new) :
          MergeIds(MapIds(SortedInts(Posting(old, t)), s.m1), MapIds(SortedInts(Posting(new, t)), s.m2)) = SortedInts(Posting(m, t))

\* the result is again an index over its roots: merges can follow each other
Closed == LET m == MergeIndex(old, new) IN
          /\ \A k \in DOMAIN m.files : UnderAny(m.files[k].name, Range(m.roots))
          /\ StrictlySorted(Names(m)) /\ StrictlySorted(m.roots)
=============================================================================
