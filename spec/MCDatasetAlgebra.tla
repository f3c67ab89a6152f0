---------------------------- MODULE MCDatasetAlgebra ----------------------------
(* The laws of the operations, for every small pair of arrays, every axis and   *)
(* every index.                                                                 *)
EXTENDS DatasetAlgebra
CONSTANTS MaxX, MaxY
VARIABLES ds, s, d, cut
vars == <<ds, s, d, cut>>
Cells(n) == [ k \in 1..n |-> k ]
Var(dims, shape) == [dims |-> dims, shape |-> shape, cells |-> Cells(Prod(shape)), dtype |-> "i",
                     fill |-> None, attrs |-> << >>, codec |-> ""]
Ds(nx, ny, flip) == [ vars |-> ("a" :> Var(<<"x">>, <<nx>>) @@ "c" :> Var(<<"y">>, <<ny>>) @@
                                "s" :> Var(<< >>, << >>) @@
                                "b" :> IF flip THEN Var(<<"y", "x">>, <<ny, nx>>)
                                       ELSE Var(<<"x", "y">>, <<nx, ny>>)),
                      attrs |-> ("t" :> "u"), chunks |-> << >>, block |-> 0, delayed |-> FALSE,
                      stale |-> {} ]
Ends == -(MaxX + 1)..(MaxX + 1) \cup {Omitted}
Slices == { [kind |-> "slice", a |-> a, b |-> b, step |-> st] : a \in Ends, b \in Ends,
            st \in {-2, -1, 1, 2} }
Lists == { [kind |-> "list", idx |-> q] : q \in UNION { [ 1..k -> -MaxX..(MaxX - 1) ] : k \in 0..2 } }
Init == /\ \E nx \in 1..MaxX, ny \in 1..MaxY, flip \in BOOLEAN : ds = Ds(nx, ny, flip)
        /\ d \in {"x", "y"} /\ s \in Slices \cup Lists
        /\ cut \in 0..MaxX
        /\ InRange(SizeOf(ds, d), s) /\ cut <= SizeOf(ds, d)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
N == SizeOf(ds, d)
Sl(a, b) == [kind |-> "slice", a |-> a, b |-> b, step |-> 1]
Part(a, b) == Isel(ds, d :> Sl(a, b))
AsList(q) == [kind |-> "list", idx |-> q]
Rows(e) == SizeOf(e, d)
(* nothing lost, nothing twice *)
CutAndJoin == Concat(Part(0, cut), << Part(cut, Omitted) >>, d).vars = ds.vars
Partition == Rows(Delete(ds, s, d)) + Cardinality(SetOf(Idx(N, s))) = N
DeleteIsComplement == Delete(ds, s, d).vars = Isel(ds, d :> AsList(Others(N, Idx(N, s)))).vars
Untouched == \A v \in Names(ds) : ~Has(ds.vars[v], d) =>
               /\ Isel(ds, d :> s).vars[v] = ds.vars[v]
               /\ Delete(ds, s, d).vars[v] = ds.vars[v]
               /\ Concat(ds, << ds >>, d).vars[v] = ds.vars[v]
StaysConsistent == /\ Consistent(Isel(ds, d :> s).vars) /\ Consistent(Delete(ds, s, d).vars)
                   /\ Consistent(Concat(ds, << ds, ds >>, d).vars)
Reverse == LET rev == [kind |-> "slice", a |-> Omitted, b |-> Omitted, step |-> -1] IN
           Isel(Isel(ds, d :> rev), d :> rev).vars = ds.vars
OtherAxisCommutes == LET e == IF d = "x" THEN "y" ELSE "x"
                         t == [kind |-> "slice", a |-> 0, b |-> Omitted, step |-> 2] IN
  /\ Isel(Isel(ds, d :> s), e :> t).vars = Isel(Isel(ds, e :> t), d :> s).vars
  /\ Isel(ds, d :> s @@ e :> t).vars = Isel(Isel(ds, e :> t), d :> s).vars
JoinAssociates == LET p == Part(0, cut)  q == Isel(ds, d :> s)  r == Part(cut, Omitted) IN
  Concat(Concat(p, << q >>, d), << r >>, d).vars = Concat(p, << q, r >>, d).vars
SplitAndMerge == LET pick == {"a", "s"} IN
  /\ Merge(Select(ds, pick), Select(ds, Names(ds) \ pick)).vars = ds.vars
  /\ Merge(ByDims(ds, {d}, TRUE), ByDims(ds, {d}, FALSE)).vars = ds.vars
  /\ Drop(ds, pick).vars = Select(ds, Names(ds) \ pick).vars
RenameBack == Rename(Rename(ds.vars, << <<"a", "z">>, <<"b", "a">> >>),
                     << <<"a", "b">>, <<"z", "a">> >>) = ds.vars
Inv == /\ CutAndJoin /\ Partition /\ DeleteIsComplement /\ Untouched /\ StaysConsistent
       /\ Reverse /\ OtherAxisCommutes /\ JoinAssociates /\ SplitAndMerge /\ RenameBack
================================================================================
