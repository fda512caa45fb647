------------------------------ MODULE SparseSet -----------------------------
(* The sparse set: a dense list of members and a sparse array of positions   *)
(* that is never cleared, so that it may hold anything. The abstract set is  *)
(* kept beside it. With Emit, behaviours are printed when they are MaxOps    *)
(* operations long, for replay on the real code.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Size,      \* values 0..Size-1
          Stale,    \* the sparse array initially holds any values, not zeros
          MaxOps, Emit
VARIABLES sparse,   \* value -> claimed position
          mem,      \* backing array of the dense list, with what it held beyond n
          n,
          abs,      \* the values added since the last reset, in order
          hist
vars == <<sparse, mem, n, abs, hist>>
V == 0..(Size - 1)

Init == /\ sparse \in IF Stale THEN [V -> 0..Size] ELSE {[v \in V |-> 0]}
        /\ mem = <<>> /\ n = 0 /\ abs = <<>> /\ hist = <<>>

Found(x) == sparse[x] < n /\ mem[sparse[x] + 1] = x

Note(o, x) == hist' = IF Emit THEN Append(hist, <<o, x>>) ELSE hist

Reset == n' = 0 /\ abs' = <<>> /\ UNCHANGED <<sparse, mem>> /\ Note(0, 0)
Add(x) ==
  /\ Note(1, x)
  /\ IF Found(x) THEN UNCHANGED <<sparse, mem, n, abs>>
     ELSE /\ sparse' = [sparse EXCEPT ![x] = n]
          /\ n' = n + 1
          /\ abs' = Append(abs, x)
          /\ IF n < Len(mem) THEN mem' = [mem EXCEPT ![n + 1] = x]
             ELSE \E extra \in 0..1 : \* the array is moved: what lay beyond n is gone
                  mem' = [k \in 1..(n + 1 + extra) |-> IF k <= n THEN mem[k] ELSE IF k = n + 1 THEN x ELSE 0]
Has(x) == Note(2, x) /\ UNCHANGED <<sparse, mem, n, abs>>

Done == Emit /\ Len(hist) = MaxOps
Emitted == Done /\ PrintT("GEN " \o ToJson([max |-> Size, ops |-> hist])) /\ hist' = <<>> /\ UNCHANGED <<sparse, mem, n, abs>>
Next == \/ ~Done /\ (Reset \/ \E x \in V : Add(x) \/ Has(x))
        \/ Emitted

Members == \A x \in V : Found(x) <=> x \in ToSet(abs)
Dense == SubSeq(mem, 1, n) = abs
Once == n = Cardinality(ToSet(abs))
=============================================================================
