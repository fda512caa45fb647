----------------------------- MODULE TextFilter -----------------------------
(* Which contents and names are indexed. Content is given as segments        *)
(* [b |-> bytes, n |-> number of repetitions].                               *)
EXTENDS Text

MaxLine == 2000
MaxTrigrams == 20000
MaxBytes == 1073741824

ValidNameByte(b) == b >= 32
ValidName(n) == Len(n) > 0 /\ \A k \in DOMAIN n : ValidNameByte(n[k])

(* Names as they are stored: an entry of an archive is the archive's name, 1, and its own. *)
ARCHIVE == <<46, 122, 105, 112>>   \* .zip
ValidStored(n) ==
  LET M == {k \in DOMAIN n : n[k] = 1} IN
  IF M = {} THEN ValidName(n)
  ELSE LET m == Min(M) IN
       /\ ValidName(SubSeq(n, 1, m - 1)) /\ IsSuffixOf(ARCHIVE, SubSeq(n, 1, m - 1))
       /\ ValidName(SubSeq(n, m + 1, Len(n)))

Cont(b) == 128 <= b /\ b < 192
(* Can the pair occur in text made of sequences of one to four bytes? *)
PairOccurs(x, y) ==
  /\ x < 248 /\ y < 248
  /\ x < 128 => ~Cont(y)
  /\ 192 <= x => Cont(y)

(* Valid UTF-8 as a machine over bytes. State: 0 at a boundary, 1 2 3 continuation bytes to come, others for the *)
(* restricted second bytes, -1 invalid.                                                                          *)
Utf8Step(s, b) ==
  CASE s = -1 -> -1
    [] s = 0 -> IF b < 128 THEN 0 ELSE IF 194 <= b /\ b < 224 THEN 1
                ELSE IF b = 224 THEN 10 ELSE IF b = 237 THEN 11 ELSE IF 225 <= b /\ b < 240 THEN 2
                ELSE IF b = 240 THEN 12 ELSE IF b = 244 THEN 13 ELSE IF 241 <= b /\ b < 244 THEN 3 ELSE -1
    [] s = 1 -> IF Cont(b) THEN 0 ELSE -1
    [] s = 2 -> IF Cont(b) THEN 1 ELSE -1
    [] s = 3 -> IF Cont(b) THEN 2 ELSE -1
    [] s = 10 -> IF 160 <= b /\ b < 192 THEN 1 ELSE -1
    [] s = 11 -> IF 128 <= b /\ b < 160 THEN 1 ELSE -1
    [] s = 12 -> IF 144 <= b /\ b < 192 THEN 2 ELSE -1
    [] s = 13 -> IF 128 <= b /\ b < 144 THEN 2 ELSE -1
ValidUtf8(t) == FoldLeft(Utf8Step, 0, t) = 0

(* length of the longest line of t, newline included *)
LongestLine(t) ==
  LET f(a, b) == LET c == a.cur + 1 IN [cur |-> IF b = NL THEN 0 ELSE c, max |-> IF c > a.max THEN c ELSE a.max]
  IN FoldLeft(f, [cur |-> 0, max |-> 0], t).max

(* "yes": must be indexed; "no": must not; "free": either. For contents written out. *)
Eligible(t) ==
  IF \/ \E k \in DOMAIN t : t[k] = 0
     \/ \E k \in 1..(Len(t) - 1) : ~PairOccurs(t[k], t[k + 1])
     \/ LongestLine(t) > MaxLine
     \/ (Len(t) > MaxTrigrams /\ Cardinality(Trigrams(t)) > MaxTrigrams)
  THEN "no"
  ELSE IF ValidUtf8(t) THEN "yes" ELSE "free"
=============================================================================
