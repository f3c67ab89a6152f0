---------------------------- MODULE JudgeReadOnly ----------------------------
(* Judges recorded histories of a collection opened read-only at some point.   *)
EXTENDS JudgeCollection, ReadOnly
VARIABLE ro
RoInit == Init /\ ro = FALSE
RoStep(o) ==
  CASE o.op = "readonly" -> [ st |-> st, cp |-> cp, bad |-> T("outcome", Ok(o)) ]
    [] o.op # "readonly" /\ ro /\ o.on = "main" /\ o.op # "copy" /\ Modifying(o) ->
         [ st |-> st, cp |-> cp, bad |-> T("not_refused", Refused(o)) ]
    [] OTHER -> Step(st, cp, o)
RoNext == /\ bad = {} /\ s < Len(Cases[i].steps)
          /\ LET o == Cases[i].steps[s + 1]
                 r == RoStep(o)
             IN /\ st' = r.st /\ cp' = r.cp
                /\ bad' = r.bad \cup DiskIs(o.obs, r.st)
                   \cup T("files_changed", o.op \in {"readonly", "damage"} \/ ~ro \/ o.nochange)
                   \cup T("mode", o.readonly = (ro \/ o.op = "readonly"))
                /\ ro' = (ro \/ o.op = "readonly")
          /\ s' = s + 1 /\ i' = i
=============================================================================
