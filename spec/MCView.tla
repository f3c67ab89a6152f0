-------------------------------- MODULE MCView -------------------------------
(* All the short histories of a view on a small collection of two keys.        *)
EXTENDS View, Json, IOUtils
CONSTANTS Kinds, Depth0, ReplayDepth
VARIABLES ref, vw, n, prev, op
vars == <<ref, vw, n, prev, op>>

Vars0 == [ time |-> 0, ident |-> 0, cycle |-> 0, v1 |-> 2 ]
Start == [ vars |-> Vars0, fixed |-> {"cycle"}, axis |-> "time", ident |-> "ident",
           imm |-> <<>>, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
Ds(p, keys, times) ==
  LET id(j) == 10 * p + j
  IN [ keys |-> keys, imm |-> <<>>,
       cols |-> [ time |-> times, ident |-> [ j \in 1..Len(keys) |-> id(j) ],
                  cycle |-> [ j \in 1..Len(keys) |-> keys[j][1] ],
                  v1 |-> [ j \in 1..Len(keys) |-> <<100 * id(j) + 1, 100 * id(j) + 2>> ] ] ]
Datasets(p) == { Ds(p, << <<1>> >>, <<1>>), Ds(p, << <<1>>, <<1>> >>, <<1, 2>>),
                 Ds(p, << <<1>>, <<2>> >>, <<3, 1>>), Ds(p, << <<2>> >>, <<2>>) }
Merges == { [ kind |-> "replace", tol |-> -1 ], [ kind |-> "concat", tol |-> -1 ] }
Filters == { <<"all">>, <<"eq", 1, 1>>, <<"ne", 1, 1>> }
Updates == { [ kind |-> k, c |-> 5, depth |-> d, targets |-> t, trim |-> TRUE, info |-> d > 0,
               inferred |-> TRUE, chosen |-> <<>> ] :
               k \in {"mask", "window"}, d \in {0, 1}, t \in { <<"n1">>, <<"v1">> } }
NewVars == { [ name |-> "n1", width |-> 0, hasdim |-> TRUE, knowndims |-> TRUE ],
             [ name |-> "n2", width |-> 2, hasdim |-> TRUE, knowndims |-> TRUE ],
             [ name |-> "v1", width |-> 2, hasdim |-> TRUE, knowndims |-> TRUE ] }
Ops(p) ==
  { o \in { [ op |-> "insert", ds |-> d, merge |-> m ] : d \in Datasets(p), m \in Merges }
     \cup { [ op |-> "drop", filter |-> f ] : f \in Filters }
     \cup { [ op |-> "vload", filter |-> f, chosen |-> c ] :
              f \in Filters, c \in { <<>>, << <<"ident", "n1">> >>, << <<"n1">> >> } }
     \cup { [ op |-> "vmap", filter |-> f, depth |-> d ] : f \in Filters, d \in 0..1 }
     \cup { [ op |-> "vupdate", u |-> u, filter |-> f ] : u \in Updates, f \in Filters }
     \cup { [ op |-> "vadd", var |-> v ] : v \in NewVars }
     \cup { [ op |-> "vdrop", name |-> x ] : x \in {"n1", "v1"} }
     \cup { [ op |-> "vreopen" ], [ op |-> "vsync" ], [ op |-> "vsynced" ] }
   : o.op \in Kinds }

(* the partitions of the view that may be read: the others must be synchronised first *)
Usable(r, w) == \A k \in Visible(r, w) : Decision(r, w, k) = "same"
Need(r, w, o) == o.op \in {"vload", "vmap", "vupdate", "vadd"} => Usable(r, w)
Apply(r, w, o) ==
  CASE o.op = "vupdate" /\ VUpdateOk(w, o.u) /\ VSelected(r, w, o.filter) # <<>> ->
         VUpdate(r, w, VSelected(r, w, o.filter), o.u)
    [] o.op = "vadd" /\ VAddOk(r, w, o.var) -> VAdd(r, w, o.var)
    [] o.op = "vdrop" /\ VDropOk(w, o.name) -> VDrop(w, o.name)
    [] o.op = "vsync" -> Sync(r, w)
    [] OTHER -> w
ApplyRef(r, o) ==
  CASE o.op = "insert" -> Insert(r, o.ds, o.merge)
    [] o.op = "drop" -> Drop(r, o.filter)
    [] OTHER -> r
FirstStep == [ op |-> "insert", ds |-> Ds(0, << <<1>>, <<2>> >>, <<1, 1>>),
               merge |-> [ kind |-> "replace", tol |-> -1 ] ]
Populated == ApplyRef(Start, FirstStep)
Init == /\ ref = Populated
        /\ \E f \in Filters : vw = Create(ref, f)
        /\ n = 0 /\ prev = vw /\ op = [ op |-> "start" ]
Next == n < Depth0 /\ \E o \in Ops(n + 1) : Need(ref, vw, o) /\
           ref' = ApplyRef(ref, o) /\ vw' = Apply(ref, vw, o) /\ prev' = vw /\ op' = o /\ n' = n + 1

(***************************** the properties ********************************)
Consistent == ViewOk(ref, vw)
(* C12: after a synchronisation everything is aligned, twice is the same *)
AfterSync == op.op = "vsync" => /\ Synced(ref, vw) /\ Sync(ref, vw) = vw
                                /\ DOMAIN ref.parts \subseteq DOMAIN vw.parts
Kept == op.op = "vsync" => \A k \in DOMAIN ref.parts : \A v \in DOMAIN vw.vars :
   LET new == vw.parts[k].vals[v] IN
   IF k \in DOMAIN prev.parts /\ v \in DOMAIN prev.parts[k].vals
      /\ IsPrefix0(prev.parts[k].axis, AxisOf(ref, k))
   THEN IsPrefix0(prev.parts[k].vals[v], new)
   ELSE \A j \in 1..Len(new) : new[j] = MissingOf(vw.vars[v])
(* C11: adding then dropping a variable leaves the view as it was *)
AddDrop == LET v == CHOOSE v \in NewVars : v.name = "n2" IN
   VAddOk(ref, vw, v) => VDrop(VAdd(ref, vw, v), "n2") = vw
JoinedOk == Usable(ref, vw) => \A k \in Visible(ref, vw) : \A v, w \in DOMAIN Joined(ref, vw).vars :
   Len(Joined(ref, vw).parts[k][v]) = Len(Joined(ref, vw).parts[k][w])
UpdateOnly == op.op = "vupdate" => \A k \in DOMAIN vw.parts : \A v \in DOMAIN vw.parts[k].vals :
   ((\E j \in 1..Len(op.u.targets) : op.u.targets[j] = v) /\ Sat(op.filter, k))
   \/ vw.parts[k].vals[v] = prev.parts[k].vals[v]
Inv == Consistent /\ AfterSync /\ Kept /\ AddDrop /\ JoinedOk /\ UpdateOnly

(* the histories to replay are the behaviours themselves, from Init *)
RECURSIVE Behaviours(_)
Behaviours(d) == IF d = 0
  THEN { [ h |-> <<FirstStep, [ op |-> "vcreate", filter |-> f ], [ op |-> "vadd", var |-> v ]>>,
           r |-> Populated, w |-> VAdd(Populated, Create(Populated, f), v) ] :
           f \in Filters, v \in { x \in NewVars : x.name = "n1" } }
  ELSE { [ h |-> Append(x.h, o), r |-> ApplyRef(x.r, o), w |-> Apply(x.r, x.w, o) ] :
           <<x, o>> \in { y \in Behaviours(d - 1) \X Ops(d) : Need(y[1].r, y[1].w, y[2]) } }
ASSUME "OUT" \in DOMAIN IOEnv =>
   JsonSerialize(IOEnv.OUT, SetToSeq({ x.h : x \in Behaviours(ReplayDepth) }))
=============================================================================
