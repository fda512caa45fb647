-------------------------------- MODULE J_C23 -------------------------------
(* C23: the answer is a function of expression, text and boundary arguments. *)
EXTENDS JudgeBase, Regex

(* The answers allowed for one search: the end of the first matching line. *)
Answers(re, c, f) ==
  LET ml == MatchingLines(re, c.lines, c.nl, c.bt, c.et, f)
      le == LineEnds(c.lines)
  IN IF ml # {} THEN {le[Min(ml)]}
     ELSE {-1} \cup (IF c.nl THEN {le[Len(le)] + 1} ELSE {})

Verdict(e) ==
  \A k \in DOMAIN e.calls :
    LET c == e.calls[k] IN
    /\ Chk(e, "fresh", c.got = c.fresh)
    /\ Chk(e, "string", c.str = c.got)
    /\ Chk(e, "answer", c.got \in Answers(e.re, c, Flags(c.orbits)))

Next == Judge(Verdict)
=============================================================================
