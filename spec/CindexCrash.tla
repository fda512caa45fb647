------------------------------ MODULE CindexCrash ---------------------------
(* Incremental runs of cindex step by step, with kills and failing           *)
(* operations. An index is abstracted to the version of the tree it recorded *)
(* for each root (0: not a root). Files are absent, partial, or complete.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots, MaxVersion, MaxRuns, MaxFaults, Emit

VARIABLES tree,                \* version of the files
          master, new, merged, \* the index, the update, the merge of both
          temps,               \* temporary files left in the temporary directory
          pc, args,            \* the run
          before, after,       \* ghosts: index before and after the run
          runs, faults, clean,
          plan,                \* where the next fault shall come, for simulation
          hist

vars == <<tree, master, new, merged, temps, pc, args, before, after, runs, faults, clean, plan, hist>>

Absent == [st |-> "absent", ix |-> [r \in Roots |-> 0]]
Partial == [st |-> "partial", ix |-> [r \in Roots |-> 0]]
Complete(ix) == [st |-> "complete", ix |-> ix]

Update(ix, A, v) == [r \in Roots |-> IF r \in A \/ (A = {} /\ ix[r] # 0) THEN v ELSE ix[r]]
Overlay(old, upd) == [r \in Roots |-> IF upd[r] # 0 THEN upd[r] ELSE old[r]]
None == [r \in Roots |-> 0]

Init ==
  /\ tree = 1
  /\ \E r \in Roots : master = Complete([None EXCEPT ![r] = 1])
  /\ new = Absent /\ merged = Absent /\ temps = 0
  /\ pc = "idle" /\ args = {}
  /\ before = master.ix /\ after = master.ix
  /\ runs = 0 /\ faults = 0 /\ clean = FALSE /\ plan = "any"
  /\ hist = <<>>

H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

Edit ==
  /\ pc = "idle" /\ tree < MaxVersion
  /\ tree' = tree + 1
  /\ H([op |-> "edit", stage |-> "", fault |-> "", n |-> 0])
  /\ UNCHANGED <<master, new, merged, temps, pc, args, before, after, runs, faults, clean, plan>>

Stages == {"stat", "temps", "create", "write", "open", "createmerged", "writemerged", "remove", "rename"}

Start ==
  /\ pc = "idle" /\ runs < MaxRuns
  /\ \E A \in SUBSET Roots, p \in (IF Emit THEN Stages \cup {"none"} ELSE {"any"}) :
       /\ args' = A
       /\ plan' = IF Emit /\ runs + 1 = MaxRuns THEN "none" ELSE p
       /\ before' = master.ix
       /\ after' = Update(master.ix, A, tree)
       /\ H([op |-> "run", stage |-> "", fault |-> "", n |-> Cardinality(A)])
  /\ pc' = "stat" /\ runs' = runs + 1 /\ clean' = TRUE
  /\ UNCHANGED <<tree, master, new, merged, temps, faults>>

(* the steps of a run, and what each does *)
After(p) == CASE p = "stat" -> "temps" [] p = "temps" -> "create" [] p = "create" -> "write" [] p = "write" -> "open"
              [] p = "open" -> "createmerged" [] p = "createmerged" -> "writemerged" [] p = "writemerged" -> "remove"
              [] p = "remove" -> "rename" [] p = "rename" -> "done"
Running == pc \notin {"idle", "done", "end"}
UpdateIx == [r \in Roots |-> IF r \in args \/ (args = {} /\ before[r] # 0) THEN tree ELSE 0]

Do(p) ==
  CASE p = "temps" -> temps' = temps + 1 /\ UNCHANGED <<master, new, merged>>
    [] p = "create" -> new' = Partial /\ UNCHANGED <<master, merged, temps>>
    [] p = "write" -> new' = Complete(UpdateIx) /\ UNCHANGED <<master, merged, temps>>
    [] p = "createmerged" -> merged' = Partial /\ UNCHANGED <<master, new, temps>>
    [] p = "writemerged" -> /\ merged' = Complete(Overlay(master.ix, new.ix)) /\ temps' = temps - 1
                            /\ UNCHANGED <<master, new>>
    [] p = "remove" -> new' = Absent /\ UNCHANGED <<master, merged, temps>>
    [] p = "rename" -> master' = merged /\ merged' = Absent /\ UNCHANGED <<new, temps>>
    [] OTHER -> UNCHANGED <<master, new, merged, temps>>

Step ==
  /\ Running /\ plan # pc
  /\ Do(pc) /\ pc' = After(pc)
  /\ UNCHANGED <<tree, args, before, after, runs, faults, clean, plan, hist>>

(* A write stops halfway. *)
Torn(p) ==
  CASE p = "write" -> new' = Partial /\ UNCHANGED <<master, merged, temps>>
    [] p = "writemerged" -> merged' = Partial /\ UNCHANGED <<master, new, temps>>
    [] OTHER -> UNCHANGED <<master, new, merged, temps>>

End == pc' = "idle"

(* Killed before, halfway, or after the step; or the step fails. Where the   *)
(* update cannot be removed the run goes on.                                 *)
Fault ==
  /\ Running /\ faults < MaxFaults /\ plan \in {"any", pc}
  /\ plan' = IF Emit THEN "none" ELSE plan
  /\ faults' = faults + 1 /\ clean' = FALSE
  /\ \E f \in {"kill", "torn", "after", "fail"} :
       /\ H([op |-> "fault", stage |-> pc, fault |-> f, n |-> 0])
       /\ CASE f = "kill" -> UNCHANGED <<master, new, merged, temps>> /\ End
            [] f = "torn" -> Torn(pc) /\ End
            [] f = "after" -> Do(pc) /\ End
            [] f = "fail" -> IF pc = "remove" THEN pc' = After(pc) /\ UNCHANGED <<master, new, merged, temps>>
                             ELSE Torn(pc) /\ End
  /\ UNCHANGED <<tree, args, before, after, runs>>

Done ==
  /\ pc = "done"
  /\ pc' = "idle"
  /\ UNCHANGED <<tree, master, new, merged, temps, args, before, after, runs, faults, clean, plan, hist>>

Finish ==
  /\ Emit /\ pc = "idle" /\ runs = MaxRuns /\ hist # <<>>
  /\ PrintT("GEN " \o ToJson([ops |-> hist]))
  /\ pc' = "end"
  /\ UNCHANGED <<tree, master, new, merged, temps, hist, args, before, after, runs, faults, clean, plan>>

Next == Edit \/ Start \/ Step \/ Fault \/ Done \/ Finish

(* The index is always complete, and the one from before the run or after. *)
Intact == master.st = "complete" /\ master.ix \in {before, after}
(* A run that nothing disturbed leaves the new index and nothing else of its own. *)
Succeeds == (pc = "done" /\ clean) => (master.ix = after /\ new = Absent /\ merged = Absent)
(* The update is merged only when both are complete. *)
Ready == pc \in {"remove", "rename"} => merged.st = "complete"
=============================================================================
