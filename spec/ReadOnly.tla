------------------------------- MODULE ReadOnly ------------------------------
(* A collection opened read-only: modifying requests are refused, whatever     *)
(* their arguments, the others do what they do on a writable one.              *)
EXTENDS ZCollection
Modifying(o) == \/ o.op \in {"insert", "update", "drop", "addvar", "dropvar"}
                \/ (o.op = "validate" /\ o.fix)
=============================================================================
