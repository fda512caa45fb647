------------------------------ MODULE PathOrder -----------------------------
(* Checks the definitions of Paths on all paths over a small alphabet: a     *)
(* strict total order in which what is under a directory or archive follows  *)
(* it before anything else (C15), and in which a merge may therefore treat   *)
(* the files under a root as one interval of ids (C06).                      *)
EXTENDS Paths

CONSTANTS Bytes, MaxLen
\* \x01 occurs only once in a name, and what precedes it is an archive's name
Paths_ == {<<>>} \cup UNION {[1..n -> Bytes] : n \in 1..MaxLen}

VARIABLE t
Init == t \in [p : Paths_, q : Paths_, r : Paths_]
Next == UNCHANGED t

Total == /\ (t.p = t.q) <=> (~PathLess(t.p, t.q) /\ ~PathLess(t.q, t.p))
         /\ ~(PathLess(t.p, t.q) /\ PathLess(t.q, t.p))
Transitive == PathLess(t.p, t.q) /\ PathLess(t.q, t.r) => PathLess(t.p, t.r)
\* p is a root, q under it, r between them: r is under p too. Names contain no bytes below 32 but the archive mark.
Contiguous == t.p # <<>> /\ Under(t.q, t.p) /\ PathLess(t.p, t.r) /\ PathLess(t.r, t.q) => Under(t.r, t.p)
UnderOrder == /\ Under(t.p, t.q) /\ Under(t.q, t.r) => Under(t.p, t.r)
              /\ Under(t.p, t.q) /\ t.p # t.q => PathLess(t.q, t.p)
              \* what is under two roots has them nested
              /\ Under(t.p, t.q) /\ Under(t.p, t.r) => Under(t.q, t.r) \/ Under(t.r, t.q)
=============================================================================
