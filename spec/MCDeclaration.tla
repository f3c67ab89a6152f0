----------------------------- MODULE MCDeclaration -----------------------------
(* One writer, one reader opening the collection at any time.                   *)
EXTENDS Declaration
CONSTANTS Names, MaxOps
VARIABLES mem, disk, view, vdisk, n
vars == <<mem, disk, view, vdisk, n>>
Dims == << "x", "y" >>
DimSeqs == { << >>, <<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">> }
Var(dims) == [ dtype |-> "int64", dims |-> dims, attrs |-> << >>, fill |-> "none",
               compressor |-> "none", filters |-> << >> ]
Start(extra) ==
  [ axis |-> "t", part |-> "p", keys |-> <<"k">>, dims |-> Dims, chunks |-> << >>,
    block |-> "1", attrs |-> << >>,
    vars |-> ("t" :> Var(<<"x">>)) @@ ("k" :> Var(<<"x">>)) @@ ("i" :> Var(<<"y">>)) @@ extra ]
All == Names \cup {"t", "k", "i"}
Init == /\ mem \in { Start(<< >>) , Start("a" :> Var(<<"x", "y">>)) }
        /\ disk = mem /\ view = [ vars |-> << >> ] /\ vdisk = view /\ n = 0
AddV == \E a \in All, d \in DimSeqs :
  /\ mem' = IF AddOk(mem, a, Var(d)) THEN Add(mem, a, Var(d)) ELSE mem
  /\ disk' = mem' /\ UNCHANGED <<view, vdisk>>
DropV == \E a \in All :
  /\ mem' = IF DropOk(mem, a) THEN Drop(mem, a) ELSE mem
  /\ disk' = mem' /\ UNCHANGED <<view, vdisk>>
VAdd == \E a \in All \cup {"w"}, d \in DimSeqs :
  /\ view' = IF ViewAddOk(mem, view, a, Var(d)) THEN ViewAdd(view, a, Var(d)) ELSE view
  /\ vdisk' = view' /\ UNCHANGED <<mem, disk>>
VDrop == \E a \in All \cup {"w"} :
  /\ view' = IF ViewDropOk(view, a) THEN ViewDrop(view, a) ELSE view
  /\ vdisk' = view' /\ UNCHANGED <<mem, disk>>
Reopen == mem' = disk /\ view' = vdisk /\ UNCHANGED <<disk, vdisk>>
Next == n < MaxOps /\ n' = n + 1 /\ (AddV \/ DropV \/ VAdd \/ VDrop \/ Reopen)
Spec == Init /\ [][Next]_vars
Inv == /\ mem = disk /\ view = vdisk /\ WellFormed(mem)
       /\ \A a \in DOMAIN mem.vars : a \in {"t", "k", "i"} \/ "x" \in Rng(mem.vars[a].dims)
       /\ {"t", "k", "i"} \subseteq DOMAIN mem.vars
================================================================================
