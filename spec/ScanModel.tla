------------------------------ MODULE ScanModel -----------------------------
(* The streaming scan that decides whether a file is text, with its limits   *)
(* scaled down, against the definition of eligibility. Bytes arrive in reads *)
(* of any size; the reader may fail; the scan may end early. Also: the pair  *)
(* rule never rejects valid UTF-8 (so that TextFilter!Eligible, which looks  *)
(* at the reasons for "no" first, is consistent).                            *)
EXTENDS TextFilter

CONSTANTS Bytes, MaxLen, LineLimit, TriLimit, SizeLimit
VARIABLES content,  \* the file
          pos,      \* bytes read so far
          buf,      \* bytes of the current read not yet looked at
          prev, line, n, set, \* scan state; set: trigrams of this file
          result,   \* "" while scanning
          stale     \* trigrams of the file before, gone when the scan starts
vars == <<content, pos, buf, prev, line, n, set, result, stale>>

Init == /\ content \in UNION {[1..k -> Bytes] : k \in 0..MaxLen}
        /\ pos = 0 /\ buf = <<>> /\ prev = <<>> /\ line = 0 /\ n = 0 /\ set = {} /\ result = "" /\ stale = {}

Read(k) ==
  /\ result = "" /\ buf = <<>> /\ k >= 1 /\ pos + k <= Len(content)
  /\ buf' = SubSeq(content, pos + 1, pos + k)
  /\ pos' = pos + k
  /\ UNCHANGED <<content, prev, line, n, set, result, stale>>

(* one byte; prev holds at most the two bytes before it *)
Byte ==
  /\ result = "" /\ buf # <<>>
  /\ LET c == Head(buf)
         m == n + 1
         s == IF m >= 3 THEN set \cup {<<prev[1], prev[2], c>>} ELSE set
         p == IF Len(prev) = 0 THEN 0 ELSE prev[Len(prev)]
     IN /\ n' = m /\ set' = s
        /\ buf' = Tail(buf)
        /\ prev' = IF Len(prev) < 2 THEN Append(prev, c) ELSE <<prev[2], c>>
        /\ line' = IF c = NL THEN 0 ELSE line + 1
        /\ result' = IF \/ c = 0 \/ ~PairOccurs(p, c) \/ m > SizeLimit \/ line + 1 > LineLimit
                     THEN "skip" ELSE ""
  /\ UNCHANGED <<content, pos, stale>>

Eof == /\ result = "" /\ buf = <<>> /\ pos = Len(content)
       /\ result' = IF Cardinality(set) > TriLimit THEN "skip" ELSE "index"
       /\ UNCHANGED <<content, pos, buf, prev, line, n, set, stale>>
Fail == /\ result = "" /\ buf = <<>> /\ result' = "error"
        /\ UNCHANGED <<content, pos, buf, prev, line, n, set, stale>>

Next == (\E k \in 1..MaxLen : Read(k)) \/ Byte \/ Eof \/ Fail

Tri(t) == {<<t[k], t[k + 1], t[k + 2]>> : k \in 1..(Len(t) - 2)}
Must(t) == /\ 0 \notin Range(t) /\ ValidUtf8(t) /\ LongestLine(t) <= LineLimit /\ Len(t) <= SizeLimit
           /\ Cardinality(Tri(t)) <= TriLimit
MustNot(t) == \/ 0 \in Range(t) \/ LongestLine(t) > LineLimit \/ Len(t) > SizeLimit \/ Cardinality(Tri(t)) > TriLimit
              \/ \E k \in 1..(Len(t) - 1) : ~PairOccurs(t[k], t[k + 1])
Decides == result \in {"index", "skip"} =>
             /\ Must(content) => result = "index"
             /\ MustNot(content) => result = "skip"
Consistent == result # "" => ~(Must(content) /\ MustNot(content))
Trigrams3 == result = "index" => set = Tri(content)
=============================================================================
