-------------------------------- MODULE Regex -------------------------------
(* The meaning of a regular expression on one line of text.                  *)
(*                                                                           *)
(* An expression is a record with field op (see Ends). A line is a sequence  *)
(* of runes without newline. Positions are 1..Len(w)+1: position p is before *)
(* rune p. Ends(re, w, c, f, S) is the set of positions where a match of re  *)
(* that begins at a position of S can end. c tells whether the line begins   *)
(* (c.bot) and ends (c.eot) the text. f holds the flags i (fold case) and m  *)
(* (multi-line), and orb, which maps a rune to the runes equal to it up to   *)
(* case (itself included; runes not in its domain only equal themselves).    *)
EXTENDS Text

Orbit(x, orb) == IF x \in DOMAIN orb THEN orb[x] ELSE {x}
(* orbits as recorded: a sequence of sequences of runes *)
OrbitMap(orbits) ==
  LET all == UNION {Range(orbits[k]) : k \in DOMAIN orbits}
  IN [x \in all |-> UNION {IF x \in Range(orbits[k]) THEN Range(orbits[k]) ELSE {} : k \in DOMAIN orbits}]

InRanges(x, rs) == \E k \in DOMAIN rs : rs[k][1] <= x /\ x <= rs[k][2]

(* Does one rune match a literal or class? *)
RuneMatches(re, x, f) ==
  IF re.op = "lit" THEN x = re.r \/ (f.i /\ re.r \in Orbit(x, f.orb))
  ELSE LET in == IF f.i THEN \E y \in Orbit(x, f.orb) : InRanges(y, re.rs) ELSE InRanges(x, re.rs)
       IN in # re.neg

IsWordRune(x) == (48 <= x /\ x <= 57) \/ (65 <= x /\ x <= 90) \/ x = 95 \/ (97 <= x /\ x <= 122)
AtWordBoundary(w, p) ==
  LET before == p > 1 /\ IsWordRune(w[p - 1])
      after  == p <= Len(w) /\ IsWordRune(w[p])
  IN before # after

RECURSIVE Ends(_, _, _, _, _), Times(_, _, _, _, _, _), UpTo(_, _, _, _, _, _, _)
Ends(re, w, c, f, S) ==
  IF S = {} THEN {} ELSE
  CASE re.op \in {"lit", "cls"} -> {p + 1 : p \in {q \in S : q <= Len(w) /\ RuneMatches(re, w[q], f)}}
    [] re.op = "any"    -> {p + 1 : p \in {q \in S : q <= Len(w)}}
    [] re.op = "empty"  -> S
    [] re.op = "cat"    -> FoldLeft(LAMBDA T, x : Ends(x, w, c, f, T), S, re.sub)
    [] re.op = "alt"    -> UNION {Ends(re.sub[k], w, c, f, S) : k \in DOMAIN re.sub}
    [] re.op = "rep"    -> LET T == Times(re.sub[1], w, c, f, S, re.min)
                           IN UpTo(re.sub[1], w, c, f, T, T, IF re.max < 0 THEN -1 ELSE re.max - re.min)
    [] re.op = "cap"    -> Ends(re.sub[1], w, c, f, S)
    [] re.op = "grp"    -> Ends(re.sub[1], w, c,
                                [f EXCEPT !.i = IF re.i >= 0 THEN re.i = 1 ELSE f.i,
                                          !.m = IF re.m >= 0 THEN re.m = 1 ELSE f.m], S)
    [] re.op = "caret"  -> {p \in S : p = 1 /\ (f.m \/ c.bot)}
    [] re.op = "dollar" -> {p \in S : p = Len(w) + 1 /\ (f.m \/ c.eot)}
    [] re.op = "bot"    -> {p \in S : p = 1 /\ c.bot}
    [] re.op = "eot"    -> {p \in S : p = Len(w) + 1 /\ c.eot}
    [] re.op = "wb"     -> {p \in S : AtWordBoundary(w, p)}
    [] re.op = "nwb"    -> {p \in S : ~AtWordBoundary(w, p)}

(* exactly k repetitions *)
Times(re, w, c, f, S, k) ==
  IF k = 0 \/ S = {} THEN S
  ELSE LET T == Ends(re, w, c, f, S) IN IF T = S THEN S ELSE Times(re, w, c, f, T, k - 1)

(* up to k more repetitions (k < 0: any number) from S, of which only the positions New have not been extended *)
UpTo(re, w, c, f, S, New, k) ==
  IF k = 0 \/ New = {} THEN S
  ELSE LET T == Ends(re, w, c, f, New) IN UpTo(re, w, c, f, S \cup T, T \ S, k - 1)

Flags(orbits) == [i |-> FALSE, m |-> FALSE, orb |-> OrbitMap(orbits)]

(* Does the line contain a match? *)
LineMatches(re, w, c, f) == Ends(re, w, c, f, 1..(Len(w) + 1)) # {}

(* Which lines of a text match. lines: the lines; nl: is there a newline after the last one;            *)
(* bt, et: does the text begin/end here. A line followed by a newline does not end the text.            *)
LineContext(n, k, nl, bt, et) == [bot |-> k = 1 /\ bt, eot |-> k = n /\ ~nl /\ et]
MatchingLines(re, lines, nl, bt, et, f) ==
  {k \in DOMAIN lines : LineMatches(re, lines[k], LineContext(Len(lines), k, nl, bt, et), f)}

(* Offsets, in bytes, of the ends of the lines of a UTF-8 text. *)
LineEnds(lines) ==
  LET F[k \in 0..Len(lines)] == IF k = 0 THEN -1 ELSE F[k - 1] + 1 + Utf8SeqLen(lines[k])
  IN [k \in 1..Len(lines) |-> F[k]]
=============================================================================
