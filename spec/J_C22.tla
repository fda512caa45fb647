-------------------------------- MODULE J_C22 -------------------------------
(* C22: every observation agrees with the abstract sequence of values added  *)
(* since the last reset. ops: <<op, value>> with 0 reset, 1 add, 2 has;      *)
(* res[k]: len, has (after every operation, of its value), and the list      *)
(* where it was read.                                                        *)
EXTENDS JudgeBase, SequencesExt

Step(s, o) ==
  CASE o[1] = 0 -> [seq |-> <<>>, set |-> {}]
    [] o[1] = 1 -> IF o[2] \in s.set THEN s ELSE [seq |-> Append(s.seq, o[2]), set |-> s.set \cup {o[2]}]
    [] OTHER -> s

(* A large set: what was added since the last reset, as disjoint runs a, a + d, ... of n values. *)
InRun(x, v) == IF x.d > 0 THEN v >= x.a /\ ((v - x.a) % x.d) = 0 /\ (v - x.a) \div x.d < x.n
               ELSE x.a >= v /\ ((x.a - v) % (-x.d)) = 0 /\ (x.a - v) \div (-x.d) < x.n
RECURSIVE At(_, _)
At(runs, at) == IF runs = <<>> THEN -1
               ELSE IF at < runs[1].n THEN runs[1].a + (at * runs[1].d) ELSE At(Tail(runs), at - runs[1].n)
Total(runs) == FoldLeft(LAMBDA n, x : n + x.n, 0, runs)
LargeHolds(e) ==
  /\ Chk(e, "length", e.len = Total(e.runs) /\ e.ndense = e.len)
  /\ \A k \in DOMAIN e.probes :
       Chk(e, "has", (e.probes[k][2] = 1) = \E m \in DOMAIN e.runs : InRun(e.runs[m], e.probes[k][1]))
  /\ \A k \in DOMAIN e.dense : Chk(e, "list", e.dense[k][2] = At(e.runs, e.dense[k][1]))

HistoryHolds(e) ==
  LET f(a, k) ==
        LET s == Step(a.s, e.ops[k])
            r == e.res[k]
        IN [s |-> s,
            ok |-> /\ a.ok
                   /\ r.len = Len(s.seq)
                   /\ r.has = (e.ops[k][2] \in s.set)
                   /\ r.read => r.dense = s.seq]
  IN Chk(e, "history", /\ Len(e.ops) = Len(e.res)
                       /\ FoldLeft(f, [s |-> [seq |-> <<>>, set |-> {}], ok |-> TRUE], [k \in DOMAIN e.ops |-> k]).ok)

Verdict(e) == IF e.kind = "large" THEN LargeHolds(e) ELSE HistoryHolds(e)

Next == Judge(Verdict)
=============================================================================
