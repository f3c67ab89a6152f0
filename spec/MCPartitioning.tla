--------------------------- MODULE MCPartitioning ----------------------------
(* All short key sequences; the calendar over -DaySpan..DaySpan.                    *)
EXTENDS Partitioning, Json, IOUtils
CONSTANTS NKeys, NVals, MaxLen, DaySpan
VARIABLES keys, day
Key == [1..NKeys -> 0..NVals - 1]
KeySeqs == UNION { [1..n -> Key] : n \in 1..MaxLen }
Init == \/ keys \in KeySeqs /\ day = 0
        \/ keys = <<>> /\ day = -DaySpan
Next == day # 0 /\ day < DaySpan /\ day' = (IF day = -1 THEN 1 ELSE day + 1) /\ UNCHANGED keys
S == Split(keys)
Covers == S[1][2] = 0 /\ S[Len(S)][3] = Len(keys)
          /\ \A j \in 1..Len(S) - 1 : S[j][3] = S[j + 1][2]
NonEmptySlices == \A j \in 1..Len(S) : S[j][2] < S[j][3]
OwnKey == \A j \in 1..Len(S) : \A k \in S[j][2] + 1..S[j][3] : keys[k] = S[j][1]
(* for accepted inputs each key has one slice, which holds exactly its rows, and
   the slices are in increasing key order *)
OnePerKey == NonDecreasing(keys) =>
   /\ \A j, k \in 1..Len(S) : j < k => LexLess(S[j][1], S[k][1])
   /\ \A j \in 1..Len(S) : { k \in 1..Len(keys) : keys[k] = S[j][1] } = S[j][2] + 1..S[j][3]
DistinctNames == \A j, k \in 1..Len(S) : S[j][1] # S[k][1] =>
   JoinStr(DateParts(S[j][1]), "/") # JoinStr(DateParts(S[k][1]), "/")
Calendar == LET c == CivilOfDays(day) IN
   /\ c[3] \in 1..DaysInMonth(c[1], c[2]) /\ c[2] \in 1..12
   /\ CivilOfDays(day + 1) = NextCivil(c)
   /\ LexLess(c, CivilOfDays(day + 1))
Epoch == CivilOfDays(0) = <<1970, 1, 1>>
Inv == IF keys = <<>> THEN Calendar /\ Epoch
       ELSE Covers /\ NonEmptySlices /\ OwnKey /\ OnePerKey /\ DistinctNames
Cases == SetToSeq(KeySeqs)
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, Cases)
=============================================================================
