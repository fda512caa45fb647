-------------------------------- MODULE Query -------------------------------
(* Trigram queries: [op, tri (sequence of trigrams), sub (sequence of queries)]. *)
EXTENDS Text

(* Does a file with the set T of trigrams satisfy the query? *)
RECURSIVE Satisfies(_, _)
Satisfies(q, T) ==
  CASE q.op = "all"  -> TRUE
    [] q.op = "none" -> FALSE
    [] q.op = "and"  -> (\A k \in DOMAIN q.tri : q.tri[k] \in T) /\ (\A k \in DOMAIN q.sub : Satisfies(q.sub[k], T))
    [] q.op = "or"   -> (\E k \in DOMAIN q.tri : q.tri[k] \in T) \/ (\E k \in DOMAIN q.sub : Satisfies(q.sub[k], T))

(* The files of an index that satisfy a query, as a set: post maps a trigram to a set of ids, all is the set of ids. *)
RECURSIVE Eval(_, _, _)
Eval(q, post, all) ==
  LET P(t) == IF t \in DOMAIN post THEN post[t] ELSE {} IN
  CASE q.op = "all"  -> all
    [] q.op = "none" -> {}
    [] q.op = "and"  -> LET A == FoldLeft(LAMBDA S, t : S \cap P(t), all, q.tri)
                        IN FoldLeft(LAMBDA S, s : S \cap Eval(s, post, all), A, q.sub)
    [] q.op = "or"   -> (UNION {P(q.tri[k]) : k \in DOMAIN q.tri}) \cup (UNION {Eval(q.sub[k], post, all) : k \in DOMAIN q.sub})
=============================================================================
