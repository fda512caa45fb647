--------------------------- MODULE CodeSearchModel --------------------------
(* Histories of changes to a small tree and runs of cindex. The ghost seen   *)
(* says, per path, what a run last covered it found there: the index must    *)
(* always hold exactly that, however it came about by merging.               *)
EXTENDS CodeSearch, Json

CONSTANTS Universe,   \* paths
          RootChoice, \* paths given to cindex
          MaxArgs, MaxOps,
          NContents,  \* contents 1..NContents, the last one not eligible; one archive
          Zips,       \* values of -zip
          Emit

VARIABLES fs, index, roots, seen, ops, hist, pick

E(k, c) == [kind |-> k, ok |-> TRUE, c |-> c]
Env == [elig |-> [c \in 1..NContents |-> c < NContents],
        tri |-> [c \in 1..NContents |-> {c, 100}],
        arch |-> <<<<[name |-> <<98>>, c |-> 1, ok |-> TRUE], [name |-> <<97, 47, 98>>, c |-> NContents - 1, ok |-> TRUE],
                     [name |-> <<97, 46>>, c |-> NContents, ok |-> TRUE]>>>>]

ParentDir(p) ==
  LET S == {k \in DOMAIN p : p[k] = SLASH} IN IF Max(S) = 1 THEN <<SLASH>> ELSE SubSeq(p, 1, Max(S) - 1)
CanHold(p) == ParentDir(p) \in DOMAIN fs /\ fs[ParentDir(p)].kind = "dir"
Dirs == {p \in Universe : \E q \in Universe : ParentDir(q) = p}
Nodes(p) ==
  (IF IsZipName(p) THEN {E("arch", 1)} ELSE {E("file", c) : c \in 1..NContents})
  \cup (IF p \in Dirs THEN {E("dir", 0)} ELSE {})

Init == /\ fs = (<<SLASH>> :> E("dir", 0))
        /\ index = NoIndex
        /\ roots = {}
        /\ seen = <<>>
        /\ ops = 0
        /\ hist = <<>>
        /\ pick = <<>>

H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Skip == UNCHANGED <<fs, hist>>

DoPut(p, n) ==
  IF CanHold(p) /\ (p \in DOMAIN fs => fs[p] # n)
  THEN fs' = Put(fs, p, n) /\ H([op |-> "put", path |-> p, kind |-> n.kind, c |-> n.c])
  ELSE Skip
DoDel(p) ==
  IF p \in DOMAIN fs THEN fs' = Del(fs, p) /\ H([op |-> "del", path |-> p]) ELSE Skip
DoMove(p, q) ==
  IF /\ p \in DOMAIN fs /\ CanHold(q) /\ ~Under(p, q) /\ ~Under(q, p)
     /\ (q \in DOMAIN fs => fs[q].kind = fs[p].kind /\ fs[q].kind # "dir")
     /\ IsZipName(p) = IsZipName(q)
     /\ \A d \in DOMAIN fs : Under(d, p) => Moved(d, p, q) \in Universe
  THEN fs' = Move(fs, p, q) /\ H([op |-> "move", path |-> p, to |-> q])
  ELSE Skip

(* What the last run that covered a path found there. *)
RunSeen(args, reset, zip) ==
  LET R == IF args # {} THEN args ELSE IF reset THEN {} ELSE roots
      now == [r \in R |-> Walk(Env, fs, r, zip)]
      outer == Outermost(R)
      found == UNION {now[r] : r \in outer}
      old == IF reset THEN {} ELSE {n \in DOMAIN seen : ~UnderAny(n, R)}
  IN [n \in old \cup {f.name : f \in found} |->
        IF n \in old THEN seen[n] ELSE (CHOOSE f \in found : f.name = n).tri]

DoRun(args, reset, zip) ==
  IF args = {} /\ ~reset /\ ~index.exists THEN UNCHANGED <<index, roots, seen, hist>>
  ELSE /\ index' = RunIndex(Env, fs, index, args, reset, zip)
       /\ roots' = IF reset THEN args ELSE roots \cup args
       /\ seen' = RunSeen(args, reset, zip)
       /\ H([op |-> "run", args |-> SetToSeq(args), reset |-> reset, zip |-> zip])

(* everything, for model checking *)
Step ==
  \/ /\ \E p \in Universe : (\E n \in Nodes(p) : DoPut(p, n)) \/ DoDel(p) \/ (\E q \in Universe : DoMove(p, q))
     /\ UNCHANGED <<index, roots, seen>>
  \/ /\ \E args \in {S \in SUBSET RootChoice : Cardinality(S) <= MaxArgs}, reset \in BOOLEAN, zip \in Zips : DoRun(args, reset, zip)
     /\ UNCHANGED fs

(* one at random, for simulation: numbers are picked first, then what they stand for is done *)
Nth(S, k) == LET s == SetToSeq(S) IN s[(k % Len(s)) + 1]
Picked ==
  LET open == {x \in Universe : CanHold(x)}
      p == Nth(open, pick[2])
      node == IF p \in Dirs /\ pick[3] % 3 > 0 THEN E("dir", 0) ELSE Nth(Nodes(p), pick[3])
      q == Nth(open, pick[3])
      k == IF ops < 6 THEN 3 ELSE pick[1] % 12
      Arg(i) == Nth(RootChoice, pick[i])
      zip == (pick[4] % 2 = 0) /\ TRUE \in Zips
      args == CASE k \in {0, 6} -> {} [] k \in {1, 7, 11} -> {Arg(2)} [] k = 2 -> {Arg(2), Arg(3)} [] OTHER -> {Arg(2), Arg(3), Arg(4)}
  IN CASE k \in {3, 4, 8, 9} -> DoPut(p, node) /\ UNCHANGED <<index, roots, seen>>
       [] k = 5 -> (IF pick[4] % 3 = 0 THEN DoDel(p) ELSE DoMove(Nth(DOMAIN fs \ {<<SLASH>>}, pick[2]), q)) /\ UNCHANGED <<index, roots, seen>>
       [] OTHER -> DoRun(args, k \in {6, 11} /\ pick[3] % 4 = 0, zip) /\ UNCHANGED fs

Finish == /\ ops = MaxOps /\ Emit
          /\ ops' = MaxOps + 1
          /\ PrintT("GEN " \o ToJson([ops |-> hist]))
          /\ UNCHANGED <<fs, index, roots, seen, hist, pick>>

Next ==
  \/ /\ ops < MaxOps
     /\ IF Emit /\ Len(pick) < 4
        THEN (\E x \in 0..35 : pick' = Append(pick, x)) /\ UNCHANGED <<fs, index, roots, seen, ops, hist>>
        ELSE /\ ops' = ops + 1
             /\ pick' = <<>>
             /\ IF Emit THEN Picked ELSE Step
  \/ Finish

Exact == /\ index.exists => (index.roots = Sorted(Outermost(roots)) /\ roots # {})
         /\ index.files = ByName({[name |-> n, tri |-> seen[n]] : n \in DOMAIN seen})
WellFormed == /\ StrictlySorted(index.roots)
              /\ \A k \in DOMAIN index.files : UnderAny(index.files[k].name, Range(index.roots))
              /\ StrictlySorted([k \in DOMAIN index.files |-> index.files[k].name])
TreeOK == \A p \in DOMAIN fs : p = <<SLASH>> \/ (ParentDir(p) \in DOMAIN fs /\ fs[ParentDir(p)].kind = "dir")
=============================================================================
