------------------------------- MODULE ExtSort ------------------------------
(* How an index writer collects postings: in memory up to a limit, spilled   *)
(* as sorted runs, merged at the end by a heap of runs. The result must be   *)
(* the sorted set of all postings, whenever spills happen (C05).             *)
(*                                                                           *)
(* There are NT trigrams, 1..NT in order of appearance in a text; Rank gives *)
(* their numeric order. A file holds an interval of them, so that a text of  *)
(* exactly these trigrams exists (the driver builds it).                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS NT, MinFiles, MaxFiles, Caps, Emit

Rank(i) == (((i * 7) + 3) % 11)     \* the driver's letters follow this
ASSUME \A a, b \in 1..NT : a # b => Rank(a) # Rank(b)

VARIABLES files,   \* sequence of [lo, hi]; hi < lo: no trigrams
          next,    \* next trigram of the last file to be posted, or 0
          post,    \* postings in memory: sequence of <<rank, file>>
          runs,    \* spilled runs
          cap,     \* the memory limit
          flush,   \* files after which the writer was told to spill
          out      \* the merged result, once finished
vars == <<files, next, post, runs, cap, flush, out>>

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* Spilling sorts by trigram only, stably: postings arrive in file order. *)
SortPost(p) == FlattenSeq([r \in 1..11 |-> SelectSeq(p, LAMBDA e : e[1] = r - 1)])

Init == /\ files = <<>> /\ next = 0 /\ post = <<>> /\ runs = <<>> /\ flush = {} /\ out = <<>>
        /\ cap \in Caps

Begin == /\ next = 0 /\ out = <<>> /\ Len(files) < MaxFiles
         /\ \E lo \in 1..NT, hi \in 0..NT :
              /\ hi < lo => hi = 0 /\ lo = 1
              /\ files' = Append(files, [lo |-> lo, hi |-> hi])
              /\ next' = IF hi < lo THEN 0 ELSE lo
         /\ UNCHANGED <<post, runs, cap, flush, out>>

Post == /\ next # 0
        /\ LET full == Len(post) >= cap
               e == <<Rank(next), Len(files)>>
           IN /\ runs' = IF full THEN Append(runs, SortPost(post)) ELSE runs
              /\ post' = Append(IF full THEN <<>> ELSE post, e)
        /\ next' = IF next = files[Len(files)].hi THEN 0 ELSE next + 1
        /\ UNCHANGED <<files, cap, flush, out>>

Spill == /\ next = 0 /\ out = <<>> /\ Len(files) > 0 /\ Len(files) \notin flush
         /\ runs' = Append(runs, SortPost(post))
         /\ post' = <<>>
         /\ flush' = flush \cup {Len(files)}
         /\ UNCHANGED <<files, next, cap, out>>

(* The heap of runs, as in the writer: each node is the rest of a run. *)
Swap(h, a, b) == [h EXCEPT ![a] = h[b], ![b] = h[a]]
RECURSIVE SiftUp(_, _)
SiftUp(h, j) == IF j = 1 THEN h
                ELSE LET p == j \div 2 IN
                     IF Less(Head(h[p]), Head(h[j])) THEN h ELSE SiftUp(Swap(h, p, j), p)
RECURSIVE SiftDown(_, _)
SiftDown(h, a) ==
  IF 2 * a > Len(h) THEN h
  ELSE LET c == IF 2 * a + 1 <= Len(h) /\ ~Less(Head(h[2 * a]), Head(h[2 * a + 1])) THEN 2 * a + 1 ELSE 2 * a
       IN IF Less(Head(h[a]), Head(h[c])) THEN h ELSE SiftDown(Swap(h, a, c), c)
AddRun(h, r) == IF r = <<>> THEN h ELSE SiftUp(Append(h, r), Len(h) + 1)
RECURSIVE Drain(_, _)
Drain(h, o) ==
  IF h = <<>> THEN o
  ELSE LET e == Head(h[1])
           r == Tail(h[1])
           n == Len(h)
       IN Drain(IF r # <<>> THEN SiftDown([h EXCEPT ![1] = r], 1)
                ELSE IF n = 1 THEN <<>>
                ELSE SiftDown(SubSeq([h EXCEPT ![1] = h[n]], 1, n - 1), 1),
                Append(o, e))

Result == Append(Drain(AddRun(FoldLeft(AddRun, <<>>, runs), SortPost(post)), <<>>), <<99, 0>>)

Finish == /\ next = 0 /\ out = <<>> /\ Len(files) >= MinFiles
          /\ out' = Result
          /\ Emit => PrintT("GEN " \o ToJson([files |-> files, cap |-> cap, flush |-> SetToSortSeq(flush, <)]))
          /\ UNCHANGED <<files, next, post, runs, cap, flush>>

Next == Begin \/ Post \/ Spill \/ Finish

All == UNION {{<<Rank(i), k>> : i \in files[k].lo..files[k].hi} : k \in DOMAIN files}
Correct == out # <<>> => out = Append(SetToSortSeq(All, Less), <<99, 0>>)
=============================================================================
