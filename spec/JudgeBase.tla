------------------------------ MODULE JudgeBase -----------------------------
(* A judge visits every recorded event once and evaluates the specification  *)
(* on it. Judge modules define Next == Judge(Verdict(Events[i])).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.VERIF_EVENTS)

VARIABLES i, st
Init == i \in 1..Len(Events) /\ st = "todo"

(* b, naming the part of the specification that failed *)
Chk(e, name, b) == IF b THEN TRUE ELSE PrintT("WHY " \o e.id \o " " \o name) /\ FALSE

Judge(V(_)) ==
  /\ st = "todo"
  /\ i' = i
  /\ LET e == Events[i] IN
     IF e.kind # "crash" /\ V(e)
     THEN st' = "ok"
     ELSE st' = "bad" /\ PrintT("BAD " \o e.id)
=============================================================================
