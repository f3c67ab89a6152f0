-------------------------------- MODULE View ---------------------------------
(* A view: variables added next to a reference collection.                     *)
(*                                                                             *)
(* vw.vars: variables of the view -> width;  vw.parts: key -> [ axis |-> axis  *)
(* of the reference when the partition was last aligned, vals |-> values of    *)
(* the variables of the view ].  A partition of the view whose key is not in   *)
(* the reference is hidden; it is used again if the key returns.               *)
EXTENDS ZCollection

Visible(ref, vw) == DOMAIN vw.parts \cap DOMAIN ref.parts
VKeys(ref, vw) == SortedKeys(Visible(ref, vw))
VSelected(ref, vw, f) == SelectSeq(VKeys(ref, vw), LAMBDA k : Sat(f, k))
AxisOf(ref, k) == ref.parts[k][ref.axis]
Missings(vars, n) == [ v \in DOMAIN vars |-> Column(n, MissingOf(vars[v])) ]

Create(ref, f) ==
  [ vars |-> <<>>, parts |-> [ k \in { x \in DOMAIN ref.parts : Sat(f, x) } |->
                                 [ axis |-> AxisOf(ref, k), vals |-> <<>> ] ] ]

(* the view and its reference as one collection *)
Joined(ref, vw) ==
  [ ref EXCEPT !.vars = [ v \in DOMAIN ref.vars \cup DOMAIN vw.vars |->
                            IF v \in DOMAIN vw.vars THEN vw.vars[v] ELSE ref.vars[v] ],
               !.imm = <<>>,
               !.parts = [ k \in Visible(ref, vw) |->
                   [ v \in DOMAIN ref.vars \cup DOMAIN vw.parts[k].vals |->
                       IF v \in DOMAIN vw.parts[k].vals THEN vw.parts[k].vals[v]
                       ELSE ref.parts[k][v] ] ] ]

VAddOk(ref, vw, v) == /\ v.name \notin DOMAIN ref.vars \cup DOMAIN ref.imm \cup DOMAIN vw.vars
                      /\ v.hasdim /\ v.knowndims
VAdd(ref, vw, v) ==
  [ vars |-> [ x \in DOMAIN vw.vars \cup {v.name} |->
                 IF x = v.name THEN v.width ELSE vw.vars[x] ],
    parts |-> [ k \in DOMAIN vw.parts |->
      IF k \notin Visible(ref, vw) THEN vw.parts[k]
      ELSE [ vw.parts[k] EXCEPT !.vals =
             [ x \in DOMAIN vw.parts[k].vals \cup {v.name} |->
                 IF x = v.name THEN Column(Size(ref.parts[k]), MissingOf(v.width))
                 ELSE vw.parts[k].vals[x] ] ] ] ]
VDropOk(vw, name) == name \in DOMAIN vw.vars
VDrop(vw, name) ==
  [ vars |-> Only(vw.vars, DOMAIN vw.vars \ {name}),
    parts |-> [ k \in DOMAIN vw.parts |->
       [ vw.parts[k] EXCEPT !.vals = Only(vw.parts[k].vals, DOMAIN vw.parts[k].vals \ {name}) ] ] ]

VUpdateOk(vw, u) == \A j \in 1..Len(u.targets) : u.targets[j] \in DOMAIN vw.vars
VUpdate(ref, vw, keys, u) ==
  LET new == Update(Joined(ref, vw), keys, u).parts
      sel == { keys[p] : p \in 1..Len(keys) }
  IN [ vw EXCEPT !.parts = [ k \in DOMAIN vw.parts |->
         IF k \in sel THEN [ vw.parts[k] EXCEPT !.vals = Only(new[k], DOMAIN vw.vars) ]
         ELSE vw.parts[k] ] ]

(***************************** synchronisation *******************************)
IsPrefix0(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* what becomes of a partition *)
Decision(ref, vw, k) ==
  IF k \notin DOMAIN vw.parts THEN "new"
  ELSE IF vw.parts[k].axis = AxisOf(ref, k)
       THEN IF DOMAIN vw.vars \subseteq DOMAIN vw.parts[k].vals THEN "same" ELSE "complete"
  ELSE IF IsPrefix0(vw.parts[k].axis, AxisOf(ref, k)) THEN "extend" ELSE "reset"
Changed(ref, vw) == SelectSeq(Keys(ref), LAMBDA k : Decision(ref, vw, k) # "same")
Synced(ref, vw) == Changed(ref, vw) = <<>>
Aligned(ref, vw, k) ==
  LET n == Size(ref.parts[k])
      d == Decision(ref, vw, k)
      keep == d \in {"same", "complete", "extend"}
  IN [ axis |-> AxisOf(ref, k),
       vals |-> [ v \in DOMAIN vw.vars |->
         IF keep /\ v \in DOMAIN vw.parts[k].vals
         THEN vw.parts[k].vals[v] \o Column(n - Len(vw.parts[k].vals[v]), MissingOf(vw.vars[v]))
         ELSE Column(n, MissingOf(vw.vars[v])) ] ]
Sync(ref, vw) ==
  [ vw EXCEPT !.parts = [ k \in DOMAIN vw.parts \cup DOMAIN ref.parts |->
       IF k \in DOMAIN ref.parts THEN Aligned(ref, vw, k) ELSE vw.parts[k] ] ]

(***************************** consistency ***********************************)
ViewOk(ref, vw) == \A k \in Visible(ref, vw) :
   vw.parts[k].axis = AxisOf(ref, k) =>
     /\ DOMAIN vw.parts[k].vals \subseteq DOMAIN vw.vars
     /\ \A v \in DOMAIN vw.parts[k].vals : Len(vw.parts[k].vals[v]) = Size(ref.parts[k])
=============================================================================
