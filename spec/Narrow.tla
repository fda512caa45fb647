-------------------------------- MODULE Narrow ------------------------------
(* What the literal text of an expression asks of the files worth looking at. *)
(*                                                                           *)
(* The expressions are made of literals, small sets of characters, things    *)
(* that match anything, alternatives that begin with different characters,   *)
(* and repetitions. Such an expression is a sequence of items: a byte, of    *)
(* which there may be variants ("b"); a gap, about which nothing is said     *)
(* ("g"); and alternatives, each a sequence of items ("a").                  *)
(*                                                                           *)
(* Three bytes in a row are a demand: the file has them, in one of their     *)
(* variants. So do the alternatives demand something: for any choice of one  *)
(* demand of each, one of the chosen is met. A demand is the set of trigrams *)
(* of which a file must have one.                                            *)
EXTENDS Regex, Query

Byte(S) == [k |-> "b", s |-> S, br |-> <<>>]
Gap == [k |-> "g", s |-> {}, br |-> <<>>]
Alternatives(b) == [k |-> "a", s |-> {}, br |-> b]

(* the characters a literal or a set stands for; {} if it is none of these *)
Variants(re, fold, orb) ==
  IF re.op = "lit" THEN (IF fold THEN Orbit(re.r, orb) ELSE {re.r})
  ELSE IF re.op = "cls" /\ ~re.neg /\ (\A k \in DOMAIN re.rs : re.rs[k][1] = re.rs[k][2])
  THEN LET S == {re.rs[k][1] : k \in DOMAIN re.rs} IN IF fold THEN UNION {Orbit(x, orb) : x \in S} ELSE S
  ELSE {}

RECURSIVE Items(_, _, _)
Items(re, fold, orb) ==
  CASE re.op \in {"lit", "cls"} ->
         LET V == Variants(re, fold, orb) IN
         IF Cardinality(V) = 1 THEN LET u == Utf8(CHOOSE x \in V : TRUE) IN [k \in DOMAIN u |-> Byte({u[k]})]
         ELSE IF V # {} /\ Cardinality(V) <= 3 /\ \A x \in V : x < 128 THEN <<Byte(V)>>
         ELSE <<Gap>>
    [] re.op = "cat" -> FlattenSeq([k \in DOMAIN re.sub |-> Items(re.sub[k], fold, orb)])
    [] re.op = "alt" -> <<Alternatives([k \in DOMAIN re.sub |-> Items(re.sub[k], fold, orb)])>>
    [] re.op = "cap" -> Items(re.sub[1], fold, orb)
    [] re.op = "grp" -> Items(re.sub[1], IF re.i >= 0 THEN re.i = 1 ELSE fold, orb)
    [] re.op = "rep" -> IF re.min = 0 THEN <<Gap>> ELSE <<Gap>> \o Items(re.sub[1], fold, orb) \o <<Gap>>
    [] OTHER -> <<Gap>>

(* Do alternatives begin with different characters? -1 stands for anything else; one alternative may begin with that. *)
RECURSIVE Firsts(_, _, _)
Firsts(re, fold, orb) ==
  CASE re.op = "cat" /\ re.sub # <<>> -> Firsts(re.sub[1], fold, orb)
    [] re.op \in {"lit", "cls"} -> LET V == Variants(re, fold, orb) IN IF V = {} THEN {-1} ELSE V
    [] OTHER -> {-1}
RECURSIVE Differ(_, _, _)
Differ(re, fold, orb) ==
  /\ re.op = "alt" => \A a, b \in DOMAIN re.sub : a < b => Firsts(re.sub[a], fold, orb) \cap Firsts(re.sub[b], fold, orb) = {}
  /\ \A k \in DOMAIN re.sub : Differ(re.sub[k], IF re.op = "grp" /\ re.i >= 0 THEN re.i = 1 ELSE fold, orb)

RECURSIVE Demands(_)
Demands(items) ==
  {{x * 65536 + y * 256 + z : x \in items[k].s, y \in items[k + 1].s, z \in items[k + 2].s} :
      k \in {j \in 1..(Len(items) - 2) : \A m \in j..(j + 2) : items[m].k = "b"}}
  \cup UNION {FoldLeft(LAMBDA acc, b : {a \cup d : a \in acc, d \in Demands(b)}, {{}}, items[k].br) :
                k \in {j \in DOMAIN items : items[j].k = "a"}}

DemandsOf(e) == TLCEval(Demands(TLCEval(Items(e.re, FALSE, OrbitMap(e.orbits)))))

(* Does a file that has every trigram but those in D satisfy the query? *)
RECURSIVE HoldsWithout(_, _)
HoldsWithout(q, D) ==
  CASE q.op = "all"  -> TRUE
    [] q.op = "none" -> FALSE
    [] q.op = "and"  -> (\A k \in DOMAIN q.tri : q.tri[k] \notin D) /\ (\A k \in DOMAIN q.sub : HoldsWithout(q.sub[k], D))
    [] q.op = "or"   -> (\E k \in DOMAIN q.tri : q.tri[k] \notin D) \/ (\E k \in DOMAIN q.sub : HoldsWithout(q.sub[k], D))

(* May a search for the expression look into the file? *)
Worth(D, data) == LET T == TLCEval(Trigrams(data)) IN \A d \in D : d \cap T # {}
=============================================================================
