------------------------------ MODULE CodeSearch ----------------------------
(* The system: a file tree, and an index that runs of cindex create, update, *)
(* and remove.                                                               *)
(*                                                                           *)
(* fs: a function from paths to nodes [kind, ok, c]. kind is "dir", "file"   *)
(* (contents number c), "arch" (zip archive number c), or "other" (symbolic  *)
(* links, pipes, ...). ok: the user who runs cindex may read it (files), or  *)
(* read and search it (directories).                                         *)
(*                                                                           *)
(* env: elig[c] and tri[c] of every contents number; arch[c], a sequence of  *)
(* entries [name, c, ok].                                                    *)
(*                                                                           *)
(* index: [exists, roots, files] as in IndexModel.                           *)
EXTENDS IndexModel

NoIndex == [exists |-> FALSE, roots |-> <<>>, files |-> <<>>]

(* --- which files a run finds --- *)

HASH == 35
DOT == 46
TILDE == 126
HiddenElem(e) == e # <<>> /\ (Head(e) \in {HASH, DOT, TILDE} \/ e[Len(e)] = TILDE)

(* where path elements of p begin *)
ElemStarts(p) == {k \in 1..Len(p) : p[k] # SLASH /\ (k = 1 \/ p[k - 1] = SLASH)}
ElemAt(p, k) ==
  LET E == {j \in k..Len(p) : p[j] = SLASH} IN SubSeq(p, k, IF E = {} THEN Len(p) ELSE Min(E) - 1)

(* elements from the root's own on *)
LastStart(root) == IF ElemStarts(root) = {} THEN 1 ELSE IF root[Len(root)] = SLASH THEN Len(root) + 1 ELSE Max(ElemStarts(root))
Unhidden(root, p) == \A k \in {k \in ElemStarts(p) : k >= LastStart(root)} : ~HiddenElem(ElemAt(p, k))

InDir(p, d) == p # d /\ Under(p, d)
Parents(fs, p) == {d \in DOMAIN fs : InDir(p, d)}

(* cindex comes across p when it walks root *)
Found(fs, root, p) ==
  /\ Under(p, root) /\ root \in DOMAIN fs
  /\ Unhidden(root, p)
  /\ \A d \in Parents(fs, p) : fs[d].kind = "dir" /\ fs[d].ok

IsZipName(p) == IsSuffixOf(ARCHIVE, p)

(* what is indexed of a file *)
FilesOf(env, p, node, zip) ==
  IF ~node.ok \/ ~ValidName(p) THEN {}
  ELSE CASE node.kind = "file" -> IF env.elig[node.c] THEN {[name |-> p, tri |-> env.tri[node.c]]} ELSE {}
         [] node.kind = "arch" ->
              IF ~zip \/ ~IsZipName(p) THEN {}
              ELSE LET A == env.arch[node.c] IN
                   {[name |-> p \o <<1>> \o A[k].name, tri |-> env.tri[A[k].c]] :
                      k \in {k \in DOMAIN A : A[k].ok /\ ValidName(A[k].name) /\ env.elig[A[k].c]}}
         [] OTHER -> {}

Walk(env, fs, root, zip) == UNION {FilesOf(env, p, fs[p], zip) : p \in {q \in DOMAIN fs : Found(fs, root, q)}}

(* --- transitions --- *)

ByName(S) == SetToSortSeq(S, LAMBDA x, y : PathLess(x.name, y.name))

(* An index of the trees at the roots alone. *)
Fresh(env, fs, R, zip) == [exists |-> TRUE, roots |-> Sorted(R), files |-> ByName(UNION {Walk(env, fs, r, zip) : r \in R})]

(* cindex [-reset] [-zip] args *)
RunIndex(env, fs, index, args, reset, zip) ==
  IF reset /\ args = {} THEN NoIndex
  ELSE LET R == Outermost(IF args = {} THEN Range(index.roots) ELSE args)
           new == Fresh(env, fs, R, zip)
       IN IF reset \/ ~index.exists THEN new
          ELSE LET m == MergeIndex(index, new) IN [exists |-> TRUE, roots |-> m.roots, files |-> m.files]

(* changes of the tree *)
Put(fs, p, node) == [q \in {q \in DOMAIN fs : ~InDir(q, p)} \cup {p} |-> IF q = p THEN node ELSE fs[q]]
Del(fs, p) == [q \in {q \in DOMAIN fs : ~Under(q, p)} |-> fs[q]]
Moved(p, from, to) == to \o SubSeq(p, Len(from) + 1, Len(p))
Move(fs, from, to) ==
  LET S == {q \in DOMAIN fs : Under(q, from)}
      rest == Del(Del(fs, from), to)
      D == DOMAIN rest \cup {Moved(q, from, to) : q \in S}
  IN [q \in D |-> IF q \in DOMAIN rest THEN rest[q] ELSE fs[CHOOSE s \in S : Moved(s, from, to) = q]]
=============================================================================
