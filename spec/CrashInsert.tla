---------------------------- MODULE CrashInsert ------------------------------
(* An insertion seen as operations on files, interrupted by the death of the   *)
(* process or by the failure of one operation, and repeated afterwards.        *)
(* Each partition has its directory, a temporary directory (data being         *)
(* written) and a backup (data being replaced), the last two being hidden.     *)
(* Contents: absent, partial, old (what it was) or new (what the insertion     *)
(* makes of it).                                                               *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Parts, Existing, Target, MaxStops
VARIABLES dir, tmp, bak, pc, status, stops, broken, crashed
vars == <<dir, tmp, bak, pc, status, stops, broken, crashed>>

(* What may be seen of a partition after an interruption: the judge of the     *)
(* recorded executions uses the same two operators.                            *)
AfterCrash(existed) == IF existed THEN {"old", "new"} ELSE {"absent", "broken", "new"}
AfterFailure(existed) == IF existed THEN {"old", "new"} ELSE {"absent", "new"}

Seen(p) == IF dir[p] = "partial" THEN "broken" ELSE dir[p]
(* Known finding: the replacement of a directory takes two renamings.          *)
Swapping(p) == dir[p] = "absent" /\ bak[p] \in {"old", "new"} /\ tmp[p] = "new"

Start(p) == IF p \in Target THEN "begin" ELSE "end"
Init == /\ dir = [ p \in Parts |-> IF p \in Existing THEN "old" ELSE "absent" ]
        /\ tmp = [ p \in Parts |-> "absent" ]
        /\ bak = [ p \in Parts |-> "absent" ]
        /\ pc = [ p \in Parts |-> Start(p) ]
        /\ status = "running" /\ stops = 0 /\ broken = {} /\ crashed = FALSE

Goto(p, l) == pc' = [ pc EXCEPT ![p] = l ]
SetTo(f, p, v) == [ f EXCEPT ![p] = v ]

(* One operation of the task of a partition. *)
Do(p) ==
  CASE pc[p] = "begin" ->
         (* a replacement interrupted between its two renamings is undone first *)
         IF Swapping(p)
         THEN /\ dir' = SetTo(dir, p, bak[p]) /\ bak' = SetTo(bak, p, "absent")
              /\ UNCHANGED tmp /\ Goto(p, "begin")
         ELSE IF dir[p] \in {"old", "new"}
              THEN Goto(p, "clean") /\ UNCHANGED <<dir, tmp, bak>>
              ELSE Goto(p, "create") /\ UNCHANGED <<dir, tmp, bak>>
    [] pc[p] = "create" -> dir' = SetTo(dir, p, "absent") /\ Goto(p, "fill") /\ UNCHANGED <<tmp, bak>>
    [] pc[p] = "fill" -> dir' = SetTo(dir, p, "partial") /\ Goto(p, "seal") /\ UNCHANGED <<tmp, bak>>
    [] pc[p] = "seal" -> dir' = SetTo(dir, p, "new") /\ Goto(p, "end") /\ UNCHANGED <<tmp, bak>>
    [] pc[p] = "clean" -> tmp' = SetTo(tmp, p, "absent") /\ Goto(p, "write") /\ UNCHANGED <<dir, bak>>
    [] pc[p] = "write" -> tmp' = SetTo(tmp, p, "partial") /\ Goto(p, "close") /\ UNCHANGED <<dir, bak>>
    [] pc[p] = "close" -> tmp' = SetTo(tmp, p, "new") /\ Goto(p, "forget") /\ UNCHANGED <<dir, bak>>
    [] pc[p] = "forget" -> bak' = SetTo(bak, p, "absent") /\ Goto(p, "away") /\ UNCHANGED <<dir, tmp>>
    [] pc[p] = "away" -> /\ bak' = SetTo(bak, p, dir[p]) /\ dir' = SetTo(dir, p, "absent")
                         /\ Goto(p, "swap") /\ UNCHANGED tmp
    [] pc[p] = "swap" -> /\ dir' = SetTo(dir, p, "new") /\ tmp' = SetTo(tmp, p, "absent")
                         /\ Goto(p, "erase") /\ UNCHANGED bak
    [] pc[p] = "erase" -> bak' = SetTo(bak, p, "partial") /\ Goto(p, "erased") /\ UNCHANGED <<dir, tmp>>
    [] pc[p] = "erased" -> bak' = SetTo(bak, p, "absent") /\ Goto(p, "end") /\ UNCHANGED <<dir, tmp>>

Live(p) == pc[p] # "end"
Work(p) == status = "running" /\ Live(p) /\ Do(p) /\ UNCHANGED <<status, stops, broken, crashed>>

(* The operation fails: what the task does then. *)
Fail(p) ==
  /\ status = "running" /\ Live(p) /\ stops < MaxStops /\ stops' = stops + 1
  /\ Goto(p, "end") /\ UNCHANGED <<status, crashed>>
  /\ CASE pc[p] \in {"create", "fill", "seal"} ->
            /\ dir' = SetTo(dir, p, "absent") /\ UNCHANGED <<tmp, bak>> /\ broken' = broken \cup {p}
       [] pc[p] \in {"write", "close"} ->
            /\ tmp' = SetTo(tmp, p, "absent") /\ UNCHANGED <<dir, bak>> /\ broken' = broken \cup {p}
       [] pc[p] = "swap" ->
            /\ dir' = SetTo(dir, p, bak[p]) /\ bak' = SetTo(bak, p, "absent")
            /\ UNCHANGED tmp /\ broken' = broken \cup {p}
       [] pc[p] \in {"erase", "erased", "forget"} -> UNCHANGED <<dir, tmp, bak, broken>>
       [] OTHER -> UNCHANGED <<dir, tmp, bak>> /\ broken' = broken \cup {p}
(* "forget" ignores its errors and goes on: not a failure of the task *)
FailNext(p) == IF pc[p] = "forget"
               THEN /\ status = "running" /\ stops < MaxStops /\ stops' = stops + 1
                    /\ Goto(p, "away") /\ bak[p] = "absent" /\ UNCHANGED <<dir, tmp, bak, status, broken, crashed>>
               ELSE Fail(p)

Crash == /\ status = "running" /\ stops < MaxStops /\ stops' = stops + 1
         /\ status' = "crashed" /\ crashed' = TRUE /\ UNCHANGED <<dir, tmp, bak, pc, broken>>
Finish == /\ status = "running" /\ \A p \in Parts : ~Live(p)
          /\ status' = IF broken = {} THEN "done" ELSE "failed"
          /\ UNCHANGED <<dir, tmp, bak, pc, stops, broken, crashed>>
Repeat == /\ status \in {"crashed", "failed"}
          /\ status' = "running" /\ broken' = {}
          /\ pc' = [ p \in Parts |-> Start(p) ] /\ UNCHANGED <<dir, tmp, bak, stops, crashed>>
Next == Crash \/ Finish \/ Repeat \/ \E p \in Parts : Work(p) \/ FailNext(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish) /\ WF_vars(Repeat)
        /\ \A p \in Parts : WF_vars(Work(p))

(* Nothing stored is ever lost: at any time the old or the new data is there.  *)
NeverLost == \A p \in Existing : dir[p] \in {"old", "new"} \/ bak[p] \in {"old", "new"}
CrashSafe == status = "crashed" => \A p \in Parts :
               Seen(p) \in AfterCrash(p \in Existing) \/ Swapping(p)
FailSafe == status = "failed" => \A p \in Parts :
              IF crashed THEN Seen(p) \in AfterCrash(p \in Existing) \/ Swapping(p)
              ELSE Seen(p) \in AfterFailure(p \in Existing)
Untouched == \A p \in Existing \ Target : dir[p] = "old"
Complete == status = "done" => \A p \in Target : dir[p] = "new"
Ends == <>(status = "done")
=============================================================================
