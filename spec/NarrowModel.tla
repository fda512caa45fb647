----------------------------- MODULE NarrowModel ----------------------------
(* What Narrow demands of a file is not too much: every text that an         *)
(* expression matches meets the demands. Expressions: up to two pieces,      *)
(* alternatives of up to B pieces each, perhaps repeated, up to two pieces;  *)
(* all texts of up to L characters.                                          *)
EXTENDS Narrow
CONSTANTS B, L

VARIABLES re, folded, phase
vars == <<re, folded, phase>>

Node(op, sub) == [op |-> op, r |-> 0, rs |-> <<>>, neg |-> FALSE, sub |-> sub, min |-> 0, max |-> 0, i |-> -1, m |-> -1]
Lit(x) == [Node("lit", <<>>) EXCEPT !.r = x]
Set(xs) == [Node("cls", <<>>) EXCEPT !.rs = [k \in DOMAIN xs |-> <<xs[k], xs[k]>>]]
Rep(s, min, max) == [Node("rep", <<s>>) EXCEPT !.min = min, !.max = max]
Pieces == {Lit(97), Lit(98), Set(<<97, 98>>), Rep(Node("any", <<>>), 0, -1)}
Seqs(n) == UNION {[1..k -> Pieces] : k \in 0..n}
Shapes == {"plain", "twice", "optional"}

Init == re = Node("empty", <<>>) /\ folded \in BOOLEAN /\ phase = "begin"
Next ==
  \/ /\ phase = "begin" /\ phase' = "branch" /\ \E s \in Seqs(B) : re' = Node("cat", s)
     /\ UNCHANGED folded
  \/ /\ phase = "branch" /\ phase' = "alternatives"
     /\ \E s \in Seqs(B), shape \in Shapes :
          LET a == Node("alt", <<re, Node("cat", s)>>) IN
          re' = IF shape = "plain" THEN a ELSE IF shape = "twice" THEN Rep(a, 2, -1) ELSE Rep(a, 0, 1)
     /\ UNCHANGED folded
  \/ /\ phase = "alternatives" /\ phase' = "done"
     /\ \E before, after \in Seqs(1) : re' = Node("cat", before \o <<re>> \o after)
     /\ UNCHANGED folded

Orb == OrbitMap(<<<<65, 97>>, <<66, 98>>>>)
Texts == UNION {[1..n -> {65, 97, 98}] : n \in 0..L}
F == [i |-> folded, m |-> TRUE, orb |-> Orb]
C == [bot |-> TRUE, eot |-> TRUE]

NotTooMuch ==
  phase \in {"branch", "done"} =>
    LET D == TLCEval(Demands(TLCEval(Items(re, folded, Orb))))
    IN D # {} => \A w \in Texts : LineMatches(re, w, C, F) => Worth(D, w)
(* some of these expressions demand something *)
Spec == Init /\ [][Next]_vars
=============================================================================
