---------------------------- MODULE SchemaChange -----------------------------
(* The addition and the removal of a variable seen as operations on files, one *)
(* of which may fail; the request is then repeated.  The declaration is held   *)
(* in memory and on disk; each partition holds the files of the variable and   *)
(* consolidated metadata that list it or not.                                  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Parts, Op, MaxFailures
VARIABLES mem, disk, files, listed, pc, task, failures, outcome
vars == <<mem, disk, files, listed, pc, task, failures, outcome>>
Before == Op = "drop"
Init == /\ mem = Before /\ disk = Before
        /\ files = [ p \in Parts |-> Before ] /\ listed = [ p \in Parts |-> Before ]
        /\ pc = (IF Op = "add" THEN "declare" ELSE "tasks")
        /\ task = [ p \in Parts |-> "files" ] /\ failures = 0 /\ outcome = "running"

Adding == Op = "add" /\ pc \in {"declare", "config", "tasks"}
(* removing: a removal, or the cancellation of an addition *)
Removing == pc \in {"remove", "undeclare"} \/ (Op = "drop" /\ pc = "tasks")

Declare == /\ pc = "declare" /\ mem' = TRUE /\ pc' = "config"
           /\ UNCHANGED <<disk, files, listed, task, failures, outcome>>
Config == /\ pc = "config" /\ disk' = mem /\ pc' = "tasks"
          /\ UNCHANGED <<mem, files, listed, task, failures, outcome>>
Task(p) ==
  /\ pc \in {"tasks", "remove"}
  /\ LET value == Adding IN
     \/ /\ task[p] = "files" /\ files' = [ files EXCEPT ![p] = value ]
        /\ task' = [ task EXCEPT ![p] = "meta" ] /\ UNCHANGED listed
     \/ /\ task[p] = "meta" /\ listed' = [ listed EXCEPT ![p] = value ]
        /\ task' = [ task EXCEPT ![p] = "end" ] /\ UNCHANGED files
  /\ UNCHANGED <<mem, disk, pc, failures, outcome>>
(* all the tasks are ended (done or failed) *)
Joined == \A p \in Parts : task[p] \in {"end", "failed"}
Join == /\ pc \in {"tasks", "remove"} /\ Joined
        /\ LET failed == \E p \in Parts : task[p] = "failed" IN
           CASE Adding /\ failed -> pc' = "remove" /\ task' = [ p \in Parts |-> "files" ] /\ UNCHANGED outcome
             [] Adding -> pc' = "end" /\ outcome' = "ok" /\ UNCHANGED task
             [] Removing /\ failed -> pc' = "end" /\ outcome' = "error" /\ UNCHANGED task
             [] OTHER -> pc' = "undeclare" /\ UNCHANGED <<task, outcome>>
        /\ UNCHANGED <<mem, disk, files, listed, failures>>
Undeclare == /\ pc = "undeclare" /\ mem' = FALSE /\ disk' = FALSE /\ pc' = "end"
             /\ outcome' = IF Op = "add" THEN "error" ELSE "ok"
             /\ UNCHANGED <<files, listed, task, failures>>
Fail == /\ failures < MaxFailures /\ failures' = failures + 1
        /\ \/ /\ pc = "config" /\ pc' = "remove" /\ task' = [ p \in Parts |-> "files" ]
              /\ UNCHANGED outcome
           \/ /\ pc \in {"tasks", "remove"} /\ UNCHANGED <<pc, outcome>>
              /\ \E p \in Parts : task[p] \in {"files", "meta"} /\ task' = [ task EXCEPT ![p] = "failed" ]
           \/ pc = "undeclare" /\ pc' = "end" /\ outcome' = "error" /\ UNCHANGED task
        /\ UNCHANGED <<mem, disk, files, listed>>
Repeat == /\ pc = "end" /\ outcome = "error" /\ (Op = "drop" \/ ~mem)
          /\ pc' = (IF Op = "add" THEN "declare" ELSE "tasks")
          /\ task' = [ p \in Parts |-> "files" ] /\ outcome' = "running"
          /\ UNCHANGED <<mem, disk, files, listed, failures>>
Next == Declare \/ Config \/ Join \/ Undeclare \/ Fail \/ Repeat \/ \E p \in Parts : Task(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Declare) /\ WF_vars(Config) /\ WF_vars(Join)
        /\ WF_vars(Undeclare) /\ WF_vars(Repeat) /\ \A p \in Parts : WF_vars(Task(p))

(* After one failure, an addition leaves everything as before; a removal keeps *)
(* the variable declared.                                                      *)
Refused == (outcome = "error" /\ failures = 1) =>
   IF Op = "add" THEN ~mem /\ ~disk /\ \A p \in Parts : ~files[p] /\ ~listed[p]
   ELSE mem /\ disk
Done == outcome = "ok" => /\ mem = ~Before /\ disk = ~Before
                          /\ \A p \in Parts : files[p] = ~Before /\ listed[p] = ~Before
(* the declaration on disk never holds a variable that the one in memory lacks *)
Known == disk => mem
Ends == MaxFailures = 1 => <>(outcome = "ok")
=============================================================================
