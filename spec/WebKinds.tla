------------------------------ MODULE WebKinds ------------------------------
(* The kinds of requests a csweb gets in one session, and what answers them. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Searching == {"hit", "hitpost", "some", "miss", "long", "filtered"} \* open the index
Refused == {"badquery", "badfilter", "notutf8", "deep"}              \* are no expressions
Pages == {"home", "file", "binary", "fresh", "dir"} \* fresh: a file that changes between requests
Failing == {"nofile", "nostatic", "nopage"}
Other == {"static", "head", "garbage", "odd"}
Kinds == Searching \cup Refused \cup Pages \cup Failing \cup Other
Together == Kinds \ {"fresh"} \* what several clients ask for at the same time

(* An answer: r.err: none came, or not all of it; r.code; r.lines: the lines *)
(* shown, each a file and a number; r.links: the number of links to lines;   *)
(* r.count: the number of matches the page tells, -1: none; r.has: the page  *)
(* shows what was asked for.                                                 *)
(* index: the lines with the needle, and those some files have, in the index *)
(* of each version.                                                          *)
Complete(r) == r.err = ""
Success(r) == r.code = 200
Failure(r) == r.code >= 400 /\ r.code < 600

Expected(kind, ix) ==
  CASE kind \in {"hit", "hitpost"} -> ix.hit
    [] kind = "some" -> ix.some
    [] kind = "filtered" -> ix.filtered
    [] OTHER -> <<>>

(* vers: the versions of the index that were current at some time meanwhile *)
Answers(kind, r, index, vers) ==
  /\ Complete(r)
  /\ CASE kind \in Searching ->
            /\ Success(r)
            /\ \E v \in vers : LET want == Expected(kind, index[(v % Len(index)) + 1])
                               IN r.lines = want /\ r.count = Len(want)
       [] kind \in Refused -> Success(r) /\ r.lines = <<>> /\ r.count = -1 /\ r.has
       [] kind \in Pages -> Success(r) /\ r.has
       [] kind \in Failing -> Failure(r)
       [] kind = "static" -> Success(r) /\ r.has
       [] kind = "head" -> Success(r)
       [] kind = "garbage" -> Failure(r)
       [] kind = "odd" -> TRUE

(* What csweb has when it has nothing to do does not grow with the number of *)
(* requests: open files, mappings of the index, memory in megabytes.         *)
Modest(a, b) == b.fds - a.fds <= 30 /\ b.maps - a.maps <= 10 /\ b.rss - a.rss <= 100
=============================================================================
