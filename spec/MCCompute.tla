------------------------------- MODULE MCCompute -------------------------------
(* The computation block by block: two variables are consumed in blocks of any  *)
(* sizes; what is accumulated from the blocks is the computation on the whole.  *)
(* Shared = TRUE models blocks whose missing values are all recognised with the *)
(* fill value of the first variable: it must violate the invariant.             *)
EXTENDS Compute, Json, IOUtils, SequencesExt
CONSTANTS Values, MaxLen, Shared
VARIABLES a, b, fa, fb, done, parts, partial
vars == <<a, b, fa, fb, done, parts, partial>>
Raw == UNION { [1..n -> Values] : n \in 1..MaxLen }
Fills == { <<>> } \cup { <<x>> : x \in Values }
Leaves == { <<"var", "a">>, <<"var", "b">>, <<"const", 2>> }
Flat == { <<op, x, y>> : op \in {"add", "mul", "lt", "maximum", "mod"},
                         x \in {<<"var", "a">>, <<"neg", <<"var", "b">>>>}, y \in { <<"var", "b">>, <<"const", 2>> } }
Safe(t) == t[1] # "mod" \/ t[3][1] = "const"
Trees == { t \in Flat : Safe(t) } \cup { <<"abs", t>> : t \in { u \in Flat : Safe(u) /\ u[1] = "add" } }
Assoc == {"sum", "min", "max", "prod"}
Env(x, y) == [ n \in {"a", "b"} |-> IF n = "a" THEN Cells(x, fa)
                                    ELSE Cells(y, IF Shared THEN fa ELSE fb) ]
Init == /\ a \in Raw /\ b \in { r \in Raw : Len(r) = Len(a) } /\ fa \in Fills /\ fb \in Fills
        /\ done = 0 /\ parts = [ t \in Trees |-> <<>> ]
        /\ partial = [ r \in Assoc |-> Miss ]
Merge(op, x, y) == Reduce(op, <<x, y>>)
Next == \E n \in 1..Len(a) - done :
          LET x == SubSeq(a, done + 1, done + n)  y == SubSeq(b, done + 1, done + n) IN
          /\ done' = done + n
          /\ parts' = [ t \in Trees |-> parts[t] \o Eval(t, Env(x, y)).v ]
          /\ partial' = [ r \in Assoc |->
                            Merge(r, partial[r], Reduce(r, Eval(<<"add", <<"var", "a">>, <<"var", "b">>>>, Env(x, y)).v)) ]
          /\ UNCHANGED <<a, b, fa, fb>>
Whole(k) == [ n \in {"a", "b"} |-> IF n = "a" THEN SubSeq(Cells(a, fa), 1, k) ELSE SubSeq(Cells(b, fb), 1, k) ]
Blockwise == \A t \in Trees : parts[t] = Eval(t, Whole(done)).v
Reduced == \A r \in Assoc :
   partial[r] = Reduce(r, Eval(<<"add", <<"var", "a">>, <<"var", "b">>>>, Whole(done)).v)
(* an element depends on the elements at the same place only                    *)
Local == \A t \in Trees : LET e == Eval(t, Whole(Len(a))).v IN
   \A k \in 1..Len(a) : e[k] = Eval(t, [ n \in {"a", "b"} |-> <<Whole(Len(a))[n][k]>> ]).v[1]
Inv == Blockwise /\ Reduced /\ Local
Spec == Init /\ [][Next]_vars
Cases == SetToSeq({ <<t, x, y, f, g>> : t \in { u \in Trees : u[1] \in {"add", "lt", "mod", "abs"} },
                      x \in [1..2 -> Values], y \in [1..2 -> Values], f \in Fills, g \in Fills })
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, Cases)
================================================================================
