---------------------------- MODULE Partitioning -----------------------------
(* Partitioning schemes: the key of a row, the order of the keys, the split of *)
(* a dataset into partitions and the names of the partitions.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(******************************** calendar ***********************************)
(* Proleptic Gregorian calendar; days are counted from 1970-01-01.             *)
CivilOfDays(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                       [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                       [] OTHER -> 31
NextCivil(c) == IF c[3] < DaysInMonth(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
                ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>

Resolutions == <<"Y", "M", "D", "h", "m", "s">>
UnitNames == <<"year", "month", "day", "hour", "minute", "second">>
Depth(res) == CHOOSE k \in 1..6 : Resolutions[k] = res

(* an instant is <<days, seconds of the day, nanoseconds>> *)
Fields(t) == CivilOfDays(t[1]) \o <<t[2] \div 3600, (t[2] % 3600) \div 60, t[2] % 60>>
DateKey(res, t) == SubSeq(Fields(t), 1, Depth(res))
DateUnits(res) == SubSeq(UnitNames, 1, Depth(res))

(********************************* order *************************************)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
LexLeq(a, b) == a = b \/ LexLess(a, b)
NonDecreasing(keys) == \A k \in 1..Len(keys) - 1 : LexLeq(keys[k], keys[k + 1])
SortedKeys(S) == SetToSortSeq(S, LexLess)

(********************************* split *************************************)
(* One slice <<key, first, stop>> (0-based, half open) per distinct key.       *)
Split(keys) ==
  LET n == Len(keys)
      starts == SetToSortSeq({ k \in 1..n : k = 1 \/ keys[k] # keys[k - 1] },
                             LAMBDA a, b : a < b)
  IN [ j \in 1..Len(starts) |->
         <<keys[starts[j]], starts[j] - 1,
           IF j = Len(starts) THEN n ELSE starts[j + 1] - 1>> ]

(********************************* names *************************************)
Pad2(v) == IF v >= 0 /\ v < 10 THEN "0" \o ToString(v) ELSE ToString(v)
DateParts(key) == [ k \in 1..Len(key) |-> UnitNames[k] \o "=" \o Pad2(key[k]) ]
SeqParts(names, key) == [ k \in 1..Len(key) |-> names[k] \o "=" \o ToString(key[k]) ]
RECURSIVE JoinStr(_, _)
JoinStr(parts, sep) == IF Len(parts) = 0 THEN "" ELSE IF Len(parts) = 1 THEN parts[1]
                       ELSE parts[1] \o sep \o JoinStr(Tail(parts), sep)
=============================================================================
