-------------------------- MODULE MCTimeSeriesMerge --------------------------
(* All pairs of sorted series with dates in 0..N and at most MaxLen records.   *)
EXTENDS TimeSeriesMerge, Json, IOUtils, TLC
CONSTANTS N, MaxLen, MaxTol
VARIABLES old, new, tol
DateSeqs == { s \in UNION { [1..n -> 0..N] : n \in 1..MaxLen } :
                \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1] }
Rows(s, tag) == [ k \in 1..Len(s) |-> <<s[k], tag + k>> ]
Init == /\ old \in { Rows(s, 0) : s \in DateSeqs }
        /\ new \in { Rows(s, 100) : s \in DateSeqs }
        /\ tol \in {NoTolerance} \cup 0..MaxTol
Next == FALSE /\ UNCHANGED <<old, new, tol>>
Res == MergeSeries(old, new, tol)
Elems(s) == { s[k] : k \in 1..Len(s) }
Sorted == SortedByDate(Res)
NewKept == Elems(new) \subseteq Elems(Res)
NothingElse == Elems(Res) \subseteq Elems(old) \cup Elems(new)
NoDuplicate == Len(Res) = Cardinality(Elems(Res))
(* exactly the existing records covered by a run of new records disappear *)
Covered(r) == IF tol = NoTolerance THEN FirstDate(new) <= Date(r) /\ Date(r) <= LastDate(new)
              ELSE LET R == Runs(new, tol) IN \E j \in 1..Len(R) :
                       FirstDate(R[j]) <= Date(r) /\ Date(r) <= LastDate(R[j])
OnlyCovered == \A r \in Elems(old) : (r \in Elems(Res)) <=> ~Covered(r)
OrderKept == SelectSeq(Res, LAMBDA r : r[2] > 100) = new
Idempotent == MergeSeries(Res, new, tol) = Res
Inv == Sorted /\ NewKept /\ NothingElse /\ NoDuplicate /\ OnlyCovered /\ OrderKept /\ Idempotent
Cases == SetToSeq({ <<s, t>> : s \in DateSeqs, t \in DateSeqs })
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, Cases)
=============================================================================
