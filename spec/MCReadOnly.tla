------------------------------ MODULE MCReadOnly -----------------------------
(* The small collection of MCCollection, opened read-only at any moment.       *)
EXTENDS MCCollection, ReadOnly
VARIABLE ro
RoInit == Init /\ ro = FALSE
RoNext == \/ /\ ~ro /\ Next /\ ro' = FALSE
          \/ ~ro /\ ro' = TRUE /\ prev' = st /\ op' = [ op |-> "readonly" ] /\ UNCHANGED <<st, n>>
          \/ /\ ro /\ ro' = TRUE /\ n < Depth0
             /\ \E o \in Ops(n + 1) : /\ op' = o /\ prev' = st /\ n' = n + 1
                                      /\ st' = IF Modifying(o) THEN st ELSE Apply(st, o)
Frozen == ro => st = prev
RoInv == Frozen /\ Schema
=============================================================================
