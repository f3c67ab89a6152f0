---------------------------- MODULE MCCollection -----------------------------
(* All the short histories of a small collection: two keys, three variables.   *)
(* The operations are in the format executed by the driver, so the histories   *)
(* checked here are also those replayed on the real code.                      *)
EXTENDS ZCollection, Json, IOUtils
CONSTANTS Kinds, Depth0, ReplayDepth
VARIABLES st, n, prev, op
vars == <<st, n, prev, op>>

Vars0 == [ time |-> 0, ident |-> 0, cycle |-> 0, v0 |-> 0, v1 |-> 2 ]
Start == [ vars |-> Vars0, fixed |-> {"cycle"}, axis |-> "time", ident |-> "ident",
           imm |-> [ lon |-> <<1, 2, 3>> ], immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]

(* the data inserted at the step p *)
Ds(p, keys, times, omit) ==
  LET id(j) == 10 * p + j
      cols == [ time |-> times, ident |-> [ j \in 1..Len(keys) |-> id(j) ],
                cycle |-> [ j \in 1..Len(keys) |-> keys[j][1] ],
                v0 |-> [ j \in 1..Len(keys) |-> IF j = 2 THEN MISSING ELSE 100 * id(j) ],
                v1 |-> [ j \in 1..Len(keys) |-> <<100 * id(j) + 1, 100 * id(j) + 2>> ] ]
  IN [ keys |-> keys, cols |-> Only(cols, DOMAIN cols \ omit), imm |-> [ lon |-> <<p, p + 1, p + 2>> ] ]
Datasets(p) == { Ds(p, << <<1>> >>, <<2>>, {}), Ds(p, << <<1>>, <<1>>, <<2>> >>, <<1, 4, 3>>, {}),
                 Ds(p, << <<2>> >>, <<2>>, {"v0"}), Ds(p, << <<2>>, <<1>> >>, <<1, 1>>, {}) }
Merges == { [ kind |-> "replace", tol |-> -1 ], [ kind |-> "series", tol |-> -1 ],
            [ kind |-> "series", tol |-> 1 ], [ kind |-> "keep", tol |-> -1 ] }
Filters == { <<"all">>, <<"eq", 1, 1>>, <<"not", <<"eq", 1, 1>> >>, <<"none">> }
Updates == { [ kind |-> k, c |-> 5, depth |-> d, targets |-> t, trim |-> TRUE, info |-> d > 0,
               inferred |-> FALSE, chosen |-> <<>> ] :
               k \in {"mask", "window"}, d \in {0, 1}, t \in { <<"v0">>, <<"v1", "v0">> } }
NewVars == { [ name |-> x, width |-> 0, hasdim |-> TRUE, knowndims |-> TRUE ] : x \in {"n1", "v0"} }
Ops(p) ==
  { o \in { [ op |-> "insert", ds |-> d, merge |-> m ] : d \in Datasets(p), m \in Merges }
     \cup { [ op |-> "drop", filter |-> f ] : f \in Filters }
     \cup { [ op |-> "load", filter |-> f, chosen |-> c ] :
              f \in Filters, c \in { <<>>, << <<"ident", "v1">> >> } }
     \cup { [ op |-> "map", filter |-> f, depth |-> d ] : f \in Filters, d \in 0..1 }
     \cup { [ op |-> "update", u |-> u, filter |-> f ] : u \in Updates, f \in Filters }
     \cup { [ op |-> "addvar", var |-> v ] : v \in NewVars }
     \cup { [ op |-> "dropvar", name |-> x ] : x \in {"v0", "n1", "cycle", "lon"} }
     \cup { [ op |-> "reopen" ] }
     \cup { [ op |-> "copy", filter |-> f ] : f \in Filters }
   : o.op \in Kinds }

Apply(x, o) ==
  CASE o.op = "insert" -> IF InsertOk(x, o.ds) THEN Insert(x, o.ds, o.merge) ELSE x
    [] o.op = "drop" -> Drop(x, o.filter)
    [] o.op = "update" -> IF UpdateOk(x, o.u) THEN Update(x, Selected(x, o.filter), o.u) ELSE x
    [] o.op = "addvar" -> IF AddOk(x, o.var) THEN AddVariable(x, o.var) ELSE x
    [] o.op = "dropvar" -> IF DropVarOk(x, o.name) THEN DropVariable(x, o.name) ELSE x
    [] OTHER -> x

Init == st = Start /\ n = 0 /\ prev = Start /\ op = [ op |-> "start" ]
Next == n < Depth0 /\ \E o \in Ops(n + 1) :
           st' = Apply(st, o) /\ prev' = st /\ op' = o /\ n' = n + 1

(***************************** the properties ********************************)
Elems(q) == { q[j] : j \in 1..Len(q) }
Idents(x) == UNION { Elems(x.parts[k]["ident"]) : k \in DOMAIN x.parts }
RowCount(x) == Len(Load(x, Keys(x), <<>>)["ident"])
Schema == SchemaOk(st)                                                       (* C09 *)
OwnKey == \A k \in DOMAIN st.parts : Elems(st.parts[k]["cycle"]) \subseteq {k[1]}  (* C01 *)
NoDuplicate == Cardinality(Idents(st)) = RowCount(st)                        (* C02 *)
NothingInvented == op.op = "insert" =>
   Idents(st) \subseteq Idents(prev) \cup Elems(op.ds.cols["ident"])
(* the rows of the partitions that are not inserted into are untouched *)
OthersKept == op.op = "insert" => \A k \in DOMAIN prev.parts :
   k \in Elems(op.ds.keys) \/ st.parts[k] = prev.parts[k]
LastWriteWins == (op.op = "insert" /\ InsertOk(prev, op.ds) /\ op.merge.kind # "keep") =>
   \A j \in 1..Len(op.ds.keys) : op.ds.cols["ident"][j] \in Elems(st.parts[op.ds.keys[j]]["ident"])
Partitioned == \A f \in Filters :                                            (* C04 *)
   /\ Elems(Selected(st, f)) \cap Elems(Selected(st, <<"not", f>>)) = {}
   /\ Elems(Selected(st, f)) \cup Elems(Selected(st, <<"not", f>>)) = DOMAIN st.parts
   /\ Selected(Drop(st, f), <<"all">>) = Selected(st, <<"not", f>>)
DropComplement == \A f \in Filters : \A k \in DOMAIN Drop(st, f).parts : Drop(st, f).parts[k] = st.parts[k]
Loaded == \A f \in Filters : LET keys == Selected(st, f) IN
   keys # <<>> => Elems(Load(st, keys, <<>>)["ident"]) = UNION { Elems(st.parts[k]["ident"]) : k \in Elems(keys) }
UpdateOnly == op.op = "update" =>                                            (* C08 *)
   /\ DOMAIN st.parts = DOMAIN prev.parts
   /\ \A k \in DOMAIN st.parts : \A v \in DOMAIN st.vars :
        (v \in Elems(op.u.targets) /\ Sat(op.filter, k)) \/ st.parts[k][v] = prev.parts[k][v]
AddDrop == AddOk(st, CHOOSE v \in NewVars : v.name = "n1") =>                (* C09 *)
   DropVariable(AddVariable(st, CHOOSE v \in NewVars : v.name = "n1"), "n1") = st
Immutable == st.immset /\ prev.immset => st.imm = prev.imm                   (* C18 *)
Copied == CopyOf(st, <<"all">>) = st /\ \A f \in Filters : Keys(CopyOf(st, f)) = Selected(st, f)  (* C14 *)
Mapped == \A f \in Filters : \A d \in 0..2 :                                 (* C17 *)
   LET keys == Selected(st, f) m == Map(st, keys, d, <<>>) IN
   /\ Len(m) = Len(keys)
   /\ \A p \in 1..Len(m) : m[p].key = keys[p]
        /\ SubSeq(m[p].cols["ident"], m[p].start + 1, m[p].stop) = st.parts[keys[p]]["ident"]
Inv == Schema /\ OwnKey /\ NoDuplicate /\ NothingInvented /\ OthersKept /\ LastWriteWins
       /\ Partitioned /\ DropComplement /\ Loaded /\ UpdateOnly /\ AddDrop /\ Immutable
       /\ Copied /\ Mapped

(******************************** replay *************************************)
RECURSIVE Histories(_)
Histories(d) == IF d = 0 THEN { <<>> }
                ELSE { Append(h, o) : h \in Histories(d - 1), o \in Ops(d) }
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq(Histories(ReplayDepth)))
=============================================================================
