------------------------------ MODULE Declaration ------------------------------
(* What a collection, and a view of it, declare; how the declaration evolves;   *)
(* what is stored of it.  A variable: [dtype, dims, attrs, fill, compressor,    *)
(* filters].  A declaration: [axis, part, keys, dims, chunks, block, attrs,     *)
(* vars], keys being the variables of the partitioning.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(q) == { q[j] : j \in 1..Len(q) }
PartDim(d) == d.vars[d.axis].dims[1]
AddOk(d, name, v) ==
  /\ name \notin DOMAIN d.vars
  /\ PartDim(d) \in Rng(v.dims)
  /\ \E w \in DOMAIN d.vars : d.vars[w].dims = v.dims
Add(d, name, v) == [ d EXCEPT !.vars = (name :> v) @@ d.vars ]
Without(f, name) == [ n \in DOMAIN f \ {name} |-> f[n] ]
DropOk(d, name) == name \in DOMAIN d.vars \ (Rng(d.keys) \cup {d.axis})
                   /\ PartDim(d) \in Rng(d.vars[name].dims)
Drop(d, name) == [ d EXCEPT !.vars = Without(d.vars, name) ]
(* A view declares its own variables, shaped as those of its reference, and     *)
(* the predicate that selects the partitions.                                   *)
ViewAddOk(d, w, name, v) ==
  /\ name \notin DOMAIN d.vars \cup DOMAIN w.vars
  /\ \E x \in DOMAIN d.vars : d.vars[x].dims = v.dims
ViewAdd(w, name, v) == [ w EXCEPT !.vars = (name :> v) @@ w.vars ]
ViewDropOk(w, name) == name \in DOMAIN w.vars
ViewDrop(w, name) == [ w EXCEPT !.vars = Without(w.vars, name) ]
WellFormed(d) ==
  /\ d.axis \in DOMAIN d.vars /\ Rng(d.keys) \subseteq DOMAIN d.vars
  /\ \A n \in DOMAIN d.vars : Rng(d.vars[n].dims) \subseteq Rng(d.dims)
================================================================================
