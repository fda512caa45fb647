------------------------------ MODULE Concurrent ----------------------------
(* Searches while the index is being updated. An update writes a new file    *)
(* and renames it over the index; a search opens the index once and reads    *)
(* what it opened. Version k of the index is the one after k updates.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Updates,     \* number of updates
          Searchers, MaxSearches, Emit

VARIABLES master,   \* number of the file that is the index
          files,    \* what the files hold: a version, or -1: not complete
          upc, started, ended,
          spc, opened, lo, result, count,
          hist

vars == <<master, files, upc, started, ended, spc, opened, lo, result, count, hist>>

Partial == 1000

Init ==
  /\ master = 1 /\ files = <<0>>
  /\ upc = "idle" /\ started = 0 /\ ended = 0
  /\ spc = [s \in Searchers |-> "idle"]
  /\ opened = [s \in Searchers |-> 0] /\ lo = [s \in Searchers |-> 0]
  /\ result = [s \in Searchers |-> 0] /\ count = [s \in Searchers |-> 0]
  /\ hist = <<>>

H(who, step) == hist' = IF Emit THEN Append(hist, [who |-> who, step |-> step]) ELSE hist
KeepS == UNCHANGED <<spc, opened, lo, result, count>>
KeepU == UNCHANGED <<master, files, upc, started, ended>>

UStart == /\ upc = "idle" /\ started < Updates
          /\ started' = started + 1 /\ upc' = "writing"
          /\ files' = Append(files, Partial)
          /\ H(0, "start") /\ KeepS /\ UNCHANGED <<master, ended>>
UWrite == /\ upc = "writing"
          /\ upc' = "written"
          /\ files' = [files EXCEPT ![Len(files)] = started]
          /\ H(0, "write") /\ KeepS /\ UNCHANGED <<master, started, ended>>
URename == /\ upc = "written"
           /\ upc' = "renamed" /\ master' = Len(files)
           /\ H(0, "rename") /\ KeepS /\ UNCHANGED <<files, started, ended>>
UEnd == /\ upc = "renamed"
        /\ upc' = "idle" /\ ended' = started
        /\ H(0, "end") /\ KeepS /\ UNCHANGED <<master, files, started>>

SStart(s) == /\ spc[s] = "idle" /\ count[s] < MaxSearches
             /\ spc' = [spc EXCEPT ![s] = "started"] /\ lo' = [lo EXCEPT ![s] = ended]
             /\ count' = [count EXCEPT ![s] = @ + 1]
             /\ H(s, "start") /\ KeepU /\ UNCHANGED <<opened, result>>
SOpen(s) == /\ spc[s] = "started"
            /\ spc' = [spc EXCEPT ![s] = "opened"] /\ opened' = [opened EXCEPT ![s] = master]
            /\ H(s, "open") /\ KeepU /\ UNCHANGED <<lo, result, count>>
SEnd(s) == /\ spc[s] = "opened"
           /\ spc' = [spc EXCEPT ![s] = "ended"] /\ result' = [result EXCEPT ![s] = files[opened[s]]]
           /\ H(s, "end") /\ KeepU /\ UNCHANGED <<opened, lo, count>>
SAgain(s) == /\ spc[s] = "ended"
             /\ spc' = [spc EXCEPT ![s] = "idle"]
             /\ UNCHANGED hist /\ KeepU /\ UNCHANGED <<opened, lo, result, count>>

Over == started = Updates /\ upc = "idle" /\ \A s \in Searchers : count[s] = MaxSearches /\ spc[s] = "idle"
Finish == /\ Emit /\ Over /\ hist # <<>>
          /\ PrintT("GEN " \o ToJson([steps |-> hist]))
          /\ hist' = <<>>
          /\ KeepU /\ KeepS

Next == UStart \/ UWrite \/ URename \/ UEnd \/ (\E s \in Searchers : SStart(s) \/ SOpen(s) \/ SEnd(s) \/ SAgain(s)) \/ Finish

(* The index is complete at any time. *)
Complete == files[master] # Partial
(* A search saw one version, not older than at its start and not newer than at its end. *)
Window == \A s \in Searchers : spc[s] = "ended" => (result[s] >= lo[s] /\ result[s] <= started)
(* Searches one after the other do not go back. *)
Monotone == \A s \in Searchers : spc[s] = "opened" => files[opened[s]] >= lo[s]
=============================================================================
