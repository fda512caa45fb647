-------------------------------- MODULE J_C11 -------------------------------
(* C11: searching from each match to the next finds exactly the matching lines. *)
EXTENDS JudgeBase, Regex

Verdict(e) ==
  LET ml   == SortedInts(MatchingLines(e.re, e.lines, e.nl, e.bt, e.et, Flags(e.orbits)))
      le   == LineEnds(e.lines)
      want == [k \in DOMAIN ml |-> le[ml[k]]]
      size == le[Len(le)] + 1
  IN Chk(e, "lines", \/ e.ends = want
                     \* the empty text after the final newline is not a line, but a caller may see it matched
                     \/ e.nl /\ e.ends = Append(want, size))

Next == Judge(Verdict)
=============================================================================
