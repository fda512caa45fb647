------------------------------ MODULE GrepImpl ------------------------------
(* Grep's chunked scan: a buffer of Cap bytes, filled as far as it goes; the *)
(* trailing fragment of a line and the lines needed as context of a match    *)
(* are held back; the lines needed as context before a match are kept when   *)
(* the buffer slides. It reports exactly the matching lines with their       *)
(* numbers and contexts, whenever any Pre + 1 + Post consecutive lines fit   *)
(* in the buffer, with a byte to spare if there is context. X matches.       *)
EXTENDS Text, Json

CONSTANTS MaxLen, Caps, Pres, Posts, Emit, EmitLen
X == 120
O == 111
Bytes == {X, O, NL}

VARIABLES text, cap, pre, post, pos, buf, cs, lineno, eof, pc, end, out
vars == <<text, cap, pre, post, pos, buf, cs, lineno, eof, pc, end, out>>
in == <<text, cap, pre, post>>

(* lines with their newlines *)
RECURSIVE Split(_)
Split(t) == IF t = <<>> THEN <<>>
            ELSE IF NL \in Range(t)
                 THEN LET j == CHOOSE k \in DOMAIN t : t[k] = NL /\ \A m \in 1..(k - 1) : t[m] # NL
                      IN <<SubSeq(t, 1, j)>> \o Split(SubSeq(t, j + 1, Len(t)))
                 ELSE <<t>>
Sum(ls, a, b) == FoldLeft(LAMBDA s, l : s + Len(l), 0, SubSeq(ls, a, b))
Fits(ls, c, w) == \A a \in DOMAIN ls : Sum(ls, a, IF a + w - 1 < Len(ls) THEN a + w - 1 ELSE Len(ls)) <= c - (IF w > 1 THEN 1 ELSE 0)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Want(ls, p, q) ==
  LET ks == SelectSeq([k \in DOMAIN ls |-> k], LAMBDA k : X \in Range(ls[k]))
  IN [j \in DOMAIN ks |-> [no |-> ks[j], line |-> ls[ks[j]],
        before |-> FlattenSeq(SubSeq(ls, Max2(1, ks[j] - p), ks[j] - 1)),
        after |-> FlattenSeq(SubSeq(ls, ks[j] + 1, Min2(Len(ls), ks[j] + q)))]]

Init == /\ text \in IF Emit THEN {<<>>} ELSE UNION {[1..k -> Bytes] : k \in 0..MaxLen}
        /\ cap \in Caps /\ pre \in Pres /\ post \in Posts
        /\ pos = 0 /\ buf = <<>> /\ cs = 0 /\ lineno = 1 /\ eof = FALSE /\ pc = (IF Emit THEN "gen" ELSE "fits") /\ end = 0 /\ out = <<>>

(* (for behaviours to be replayed) a longer text *)
Gen == /\ pc = "gen"
       /\ \/ Len(text) < EmitLen /\ \E b \in Bytes \cup {32} : text' = Append(text, b) /\ pc' = pc
          \/ Len(text) = EmitLen /\ text' = text /\ pc' = "fits"
       /\ UNCHANGED <<cap, pre, post, pos, buf, cs, lineno, eof, end, out>>

Check == /\ pc = "fits" /\ Fits(Split(text), cap, pre + post + 1)
         /\ Emit => PrintT("GEN " \o ToJson([text |-> text, cap |-> cap, pre |-> pre, post |-> post]))
         /\ pc' = "fill" /\ UNCHANGED <<in, pos, buf, cs, lineno, eof, end, out>>

LastNL(b) == IF NL \notin Range(b) THEN 0 ELSE CHOOSE k \in DOMAIN b : b[k] = NL /\ \A m \in (k + 1)..Len(b) : b[m] # NL
CountNL(b) == Cardinality({k \in DOMAIN b : b[k] = NL})
RECURSIVE Back(_, _)
Back(b, n) == IF n = 0 \/ LastNL(b) = 0 THEN b ELSE Back(SubSeq(b, 1, LastNL(b) - 1), n - 1)
SuffixLen(b, n) == Len(b) - LastNL(Back(b, n))
RECURSIVE PrefixLen(_, _)
PrefixLen(b, n) ==
  IF n = 0 THEN 0
  ELSE IF NL \notin Range(b) THEN Len(b)
  ELSE LET j == CHOOSE k \in DOMAIN b : b[k] = NL /\ \A m \in 1..(k - 1) : b[m] # NL
       IN j + PrefixLen(SubSeq(b, j + 1, Len(b)), n - 1)

Fill ==
  /\ pc = "fill"
  /\ LET room == cap - Len(buf)
         n == Min2(room, Len(text) - pos)
         b == buf \o SubSeq(text, pos + 1, pos + n)
         d == SuffixLen(b, post)
     IN /\ buf' = b /\ pos' = pos + n
        /\ eof' = (n < room)
        /\ end' = IF n = room /\ d < Len(b) THEN Len(b) - d ELSE Len(b)
  /\ pc' = "scan" /\ UNCHANGED <<in, cs, lineno, out>>

(* the next matching line of buf[cs+1..end] *)
Scan ==
  /\ pc = "scan"
  /\ LET xs == {k \in (cs + 1)..end : buf[k] = X} IN
     IF xs = {}
     THEN pc' = "slide" /\ UNCHANGED <<in, pos, buf, cs, lineno, eof, end, out>>
     ELSE LET x == Min(xs)
              ls == cs + LastNL(SubSeq(buf, cs + 1, x))
              nls == {k \in x..end : buf[k] = NL}
              le == IF nls = {} THEN end ELSE Min(nls)
              no == lineno + CountNL(SubSeq(buf, cs + 1, ls))
          IN /\ out' = Append(out, [no |-> no, line |-> SubSeq(buf, ls + 1, le),
                          before |-> SubSeq(buf, ls - SuffixLen(SubSeq(buf, 1, ls), pre) + 1, ls),
                          after |-> SubSeq(buf, le + 1, le + PrefixLen(SubSeq(buf, le + 1, Len(buf)), post))])
             /\ lineno' = no + 1 /\ cs' = le
             /\ UNCHANGED <<in, pos, buf, eof, pc, end>>

Slide ==
  /\ pc = "slide"
  /\ LET d0 == SuffixLen(SubSeq(buf, 1, end), pre)
         d == IF d0 = end THEN 0 ELSE d0
     IN /\ lineno' = IF eof THEN lineno ELSE lineno + CountNL(SubSeq(buf, cs + 1, end))
        /\ buf' = SubSeq(buf, end - d + 1, Len(buf))
        /\ cs' = d
  /\ pc' = IF eof THEN "done" ELSE "fill"
  /\ UNCHANGED <<in, pos, eof, end, out>>

Next == Gen \/ Check \/ Fill \/ Scan \/ Slide

Correct == pc = "done" => out = Want(Split(text), pre, post)
(* it always gets on: a full buffer has something to scan *)
Progress == pc = "scan" /\ ~eof /\ cap > 0 => end > 0
Ends == pos <= Len(text)
=============================================================================
