---------------------------- MODULE Transaction ------------------------------
(* Writers sharing a collection through a lock.  A writer takes the lock, runs *)
(* one task per partition (each reads the partition, then writes it with its   *)
(* mark added), waits for all of them, even when one fails, then releases the  *)
(* lock.  A process may die: the lock it holds is then freed with it.          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Writers, Parts, MaxFaults, MaxDeaths,
          Waits          (* FALSE: the lock is released as soon as a task fails *)
VARIABLES lock, phase, task, read, content, faults, deaths, report
vars == <<lock, phase, task, read, content, faults, deaths, report>>
Nobody == "nobody"
Init == /\ lock = Nobody
        /\ phase = [ w \in Writers |-> "start" ]
        /\ task = [ w \in Writers |-> [ p \in Parts |-> "none" ] ]
        /\ read = [ w \in Writers |-> [ p \in Parts |-> <<>> ] ]
        /\ content = [ p \in Parts |-> <<>> ]
        /\ faults = 0 /\ deaths = 0
        /\ report = [ w \in Writers |-> "none" ]
Acquire(w) == /\ phase[w] = "start" /\ lock = Nobody
              /\ lock' = w /\ phase' = [ phase EXCEPT ![w] = "inside" ]
              /\ task' = [ task EXCEPT ![w] = [ p \in Parts |-> "ready" ] ]
              /\ UNCHANGED <<read, content, faults, deaths, report>>
Alive(w) == phase[w] \notin {"dead"}
Read(w, p) == /\ Alive(w) /\ task[w][p] = "ready" /\ task' = [ task EXCEPT ![w][p] = "read" ]
              /\ read' = [ read EXCEPT ![w][p] = content[p] ]
              /\ UNCHANGED <<lock, phase, content, faults, deaths, report>>
Write(w, p) == /\ Alive(w) /\ task[w][p] = "read" /\ task' = [ task EXCEPT ![w][p] = "done" ]
               /\ content' = [ content EXCEPT ![p] = Append(read[w][p], w) ]
               /\ UNCHANGED <<lock, phase, read, faults, deaths, report>>
TaskFails(w, p) == /\ Alive(w) /\ task[w][p] \in {"ready", "read"} /\ faults < MaxFaults
                   /\ faults' = faults + 1 /\ task' = [ task EXCEPT ![w][p] = "failed" ]
                   /\ UNCHANGED <<lock, phase, read, content, deaths, report>>
Ended(w) == \A p \in Parts : task[w][p] \in {"done", "failed"}
Failed(w) == \E p \in Parts : task[w][p] = "failed"
Release(w) == /\ phase[w] = "inside"
              /\ Ended(w) \/ (~Waits /\ Failed(w))
              /\ lock' = Nobody /\ phase' = [ phase EXCEPT ![w] = "out" ]
              /\ report' = [ report EXCEPT ![w] = IF Failed(w) THEN "error" ELSE "ok" ]
              /\ UNCHANGED <<task, read, content, faults, deaths>>
Dies(w) == /\ phase[w] = "inside" /\ deaths < MaxDeaths /\ deaths' = deaths + 1
           /\ phase' = [ phase EXCEPT ![w] = "dead" ] /\ lock' = Nobody
           /\ UNCHANGED <<task, read, content, faults, report>>
Next == \E w \in Writers : Acquire(w) \/ Release(w) \/ Dies(w)
          \/ \E p \in Parts : Read(w, p) \/ Write(w, p) \/ TaskFails(w, p)
Spec == Init /\ [][Next]_vars /\ \A w \in Writers : WF_vars(Release(w)) /\ SF_vars(Acquire(w))
           /\ \A p \in Parts : WF_vars(Read(w, p)) /\ WF_vars(Write(w, p))

(* Partitions are written by the holder of the lock only. *)
Writing(w) == phase[w] = "inside" \/ (Alive(w) /\ \E p \in Parts : task[w][p] \in {"ready", "read"})
OnlyHolder == \A w \in Writers : Writing(w) => lock = w
Exclusive == \A v, w \in Writers : (phase[v] = "inside" /\ phase[w] = "inside") => v = w
Released == (\A w \in Writers : phase[w] \in {"out", "dead"}) => lock = Nobody
(* No work is lost: each partition holds exactly the marks of the tasks done.  *)
Marks(p) == { content[p][j] : j \in 1..Len(content[p]) }
NoLostUpdate == \A p \in Parts :
   /\ Marks(p) = { w \in Writers : task[w][p] = "done" }
   /\ Len(content[p]) = Cardinality(Marks(p))
Ends == <>(\A w \in Writers : phase[w] \in {"out", "dead"})
=============================================================================
