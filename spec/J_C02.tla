-------------------------------- MODULE J_C02 -------------------------------
(* C02: a text with a matching line satisfies the query of the expression.   *)
EXTENDS JudgeBase, Regex, Query

TextBytes(lines) == FlattenSeq([k \in DOMAIN lines |-> Append(Utf8Seq(lines[k]), NL)])

Verdict(e) ==
  \/ MatchingLines(e.re, e.lines, e.nl, TRUE, TRUE, Flags(e.orbits)) = {}
  \/ Chk(e, "query", Satisfies(e.query, Trigrams(TextBytes(e.lines))))

Next == Judge(Verdict)
=============================================================================
