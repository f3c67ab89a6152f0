------------------------------- MODULE MCStorage -------------------------------
(* Any sequence of writes and rewrites of small arrays, with every mask, chunk  *)
(* size and fill value.  Stale = TRUE models a rewrite that leaves the chunks   *)
(* it skips in the store: it must violate the invariant.                        *)
EXTENDS Storage, TLC
CONSTANTS N, Values, MaxOps, Stale
VARIABLES store, want, fill, size, n
vars == <<store, want, fill, size, n>>
Arrays == [ 1..N -> Values ]
Masks == [ 1..N -> BOOLEAN ]
Init == /\ fill \in Values \cup {None} /\ size \in 1..N /\ n = 0
        /\ \E a \in Arrays, m \in Masks, skip \in BOOLEAN :
             /\ fill = None => m = [ k \in 1..N |-> FALSE ]
             /\ want = Plain(a, m, fill)
             /\ store = Write(want, fill, size, skip)
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<fill, size>>
        /\ \/ \E a \in Arrays, m \in Masks, skip \in BOOLEAN :
                /\ fill = None => m = [ k \in 1..N |-> FALSE ]
                /\ want' = Plain(a, m, fill)
                /\ store' = IF Stale THEN Write(want', fill, size, skip) @@ store
                            ELSE Rewrite(store, want', fill, size, skip)
           \/ /\ fill # None /\ want' = Created(N, fill) /\ store' = [ c \in {} |-> << >> ]
Spec == Init /\ [][Next]_vars
Inv == Read(store, N, fill, size) = want
================================================================================
