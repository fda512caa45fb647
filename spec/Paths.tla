-------------------------------- MODULE Paths -------------------------------
(* Paths as byte sequences, their order and their nesting.                   *)
EXTENDS Text

SLASH == 47

Key(b) == IF b = SLASH THEN 0 ELSE b

(* p sorts before q: slash before every other byte, and a path before its continuations. *)
PathLess(p, q) ==
  LET n == Min({Len(p), Len(q)})
      D == {k \in 1..n : Key(p[k]) # Key(q[k])}
  IN IF D = {} THEN Len(p) < Len(q) ELSE LET d == Min(D) IN Key(p[d]) < Key(q[d])

(* p is root, or below the directory root, or inside the archive root. *)
Under(p, root) ==
  \/ p = root
  \/ /\ Len(root) > 0 /\ Len(p) > Len(root)
     /\ \A k \in 1..Len(root) : p[k] = root[k]
     /\ root[Len(root)] = SLASH \/ p[Len(root) + 1] \in {SLASH, 1}

UnderAny(p, R) == \E r \in R : Under(p, r)

(* the roots without those that lie under another *)
Outermost(R) == {r \in R : ~ \E s \in R : s # r /\ Under(r, s)}

Sorted(S) == SetToSortSeq(S, PathLess)

StrictlySorted(s) == \A k \in 1..(Len(s) - 1) : PathLess(s[k], s[k + 1])
=============================================================================
