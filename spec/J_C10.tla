-------------------------------- MODULE J_C10 -------------------------------
(* C10: which files are indexed, and that the others leave no trace.         *)
EXTENDS IndexJudge

(* Contents given as segments [b, n]: b repeated n times. Three repetitions have all the pairs, trigrams and  *)
(* (when b contains a newline) lines that n have.                                                             *)
Rep(b, n) == FlattenSeq([k \in 1..n |-> b])
Capped(segs) == FlattenSeq([k \in DOMAIN segs |-> Rep(segs[k].b, IF segs[k].n < 3 THEN segs[k].n ELSE 3)])
Length(segs) == FoldLeft(LAMBDA a, s : a + (s.n * Len(s.b)), 0, segs)
SegLongest(segs) ==
  LET step(a, s) ==
        IF NL \in Range(s.b)
        THEN LET f(x, y) == LET c == x.cur + 1 IN [cur |-> IF y = NL THEN 0 ELSE c, max |-> IF c > x.max THEN c ELSE x.max]
             IN FoldLeft(f, a, Rep(s.b, IF s.n < 3 THEN s.n ELSE 3))
        ELSE LET c == a.cur + (s.n * Len(s.b)) IN [cur |-> c, max |-> IF c > a.max THEN c ELSE a.max]
  IN FoldLeft(step, [cur |-> 0, max |-> 0], segs).max
(* whether any number of repetitions beyond three can be ignored: each repeated segment leaves the machine where it was *)
SegUtf8(segs) ==
  LET step(a, s) == LET z == FoldLeft(Utf8Step, a, s.b) IN
                    IF a < 0 \/ z < 0 THEN -1 ELSE IF s.n = 0 THEN a ELSE IF s.n = 1 \/ z = a THEN z ELSE -1
  IN FoldLeft(step, 0, segs) = 0

SegEligible(segs) ==
  LET t == TLCEval(Capped(segs)) IN
  IF \/ 0 \in Range(t)
     \/ \E k \in 1..(Len(t) - 1) : ~PairOccurs(t[k], t[k + 1])
     \/ SegLongest(segs) > MaxLine
     \/ Length(segs) > MaxBytes
     \/ (Len(t) > MaxTrigrams /\ Cardinality(Trigrams(t)) > MaxTrigrams)
  THEN "no" ELSE IF SegUtf8(segs) THEN "yes" ELSE "free"

Verdict(e) ==
  CASE e.kind = "pairs" ->
       \* files pre y suf for every byte y were added; acc: those that were indexed
       Chk(e, "pairs", \A y \in 0..255 :
             LET v == Eligible(e.pre \o <<y>> \o e.suf) IN
             /\ v = "yes" => y \in Range(e.acc)
             /\ v = "no" => y \notin Range(e.acc))
    [] e.kind = "files" ->
       LET v == TLCEval([k \in DOMAIN e.files |->
                  IF ~ValidName(e.files[k].name) \/ e.files[k].fail THEN "no" ELSE SegEligible(e.files[k].segs)])
           in == Range(e.got.names)
           acc == SelectSeq([k \in DOMAIN e.files |-> k],
                            LAMBDA k : v[k] = "yes" \/ (v[k] = "free" /\ e.files[k].name \in in))
           ix == [roots |-> e.roots, files |-> TLCEval([k \in DOMAIN acc |->
                    [name |-> e.files[acc[k]].name, tri |-> TLCEval(Trigrams(Capped(e.files[acc[k]].segs)))]])]
       IN Chk(e, "files", ReadsBack(ix, e.got))
    [] e.kind = "one" ->
       \* a file of its own, large: only whether it was indexed
       LET v == SegEligible(e.segs) IN
       Chk(e, "one", (v = "yes" => e.acc) /\ (v = "no" => ~e.acc))
    [] OTHER -> FALSE

Next == Judge(Verdict)
=============================================================================
