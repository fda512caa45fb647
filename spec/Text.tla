-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of numbers: bytes, or runes (Unicode code points).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NL == 10

(* UTF-8 *)
Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Utf8Len(r) == IF r < 128 THEN 1 ELSE IF r < 2048 THEN 2 ELSE IF r < 65536 THEN 3 ELSE 4

Utf8Seq(rs) == FlattenSeq([k \in DOMAIN rs |-> Utf8(rs[k])])
Utf8SeqLen(rs) == FoldLeft(LAMBDA a, r : a + Utf8Len(r), 0, rs)

(* The trigrams of a byte sequence, as 24-bit numbers. *)
Trigrams(b) == {b[k] * 65536 + b[k + 1] * 256 + b[k + 2] : k \in 1..(Len(b) - 2)}

(* The lines of a text without their newlines. What follows the last newline is a line only if not empty. *)
Lines(t) ==
  LET nls == SetToSortSeq({k \in DOMAIN t : t[k] = NL}, LAMBDA x, y : x < y)
      n   == Len(nls)
      rest == IF n = 0 THEN Len(t) > 0 ELSE nls[n] < Len(t)
  IN [k \in 1..(n + IF rest THEN 1 ELSE 0) |->
        SubSeq(t, IF k = 1 THEN 1 ELSE nls[k - 1] + 1, IF k <= n THEN nls[k] - 1 ELSE Len(t))]

(* Decimal digits of a number, as bytes. *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ \A k \in 1..Len(p) : p[k] = s[k]
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ \A k \in 1..Len(p) : p[k] = s[Len(s) - Len(p) + k]

SortedInts(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

=============================================================================
