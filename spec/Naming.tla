-------------------------------- MODULE Naming --------------------------------
(* Names and encoded values of the partition keys.                              *)
(* A key of a date scheme is <<year, month, ...>>; the encoded value is the     *)
(* first instant of the partition, <<days since 1970-01-01, second of the day>>.*)
(* A key of a sequence is a tuple of integers, here given by their decimal      *)
(* writing because they may exceed the integers of TLC.                         *)
EXTENDS Integers, Sequences, TLC
Pad(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Glue(_, _, _, _)
Glue(names, texts, sep, j) ==
  (IF j = 1 THEN "" ELSE sep) \o names[j] \o "=" \o texts[j]
  \o (IF j = Len(names) THEN "" ELSE Glue(names, texts, sep, j + 1))
DateTexts(key) == [ j \in 1..Len(key) |-> Pad(key[j]) ]
SeqName(names, texts, sep) == Glue(names, texts, sep, 1)
DateName(names, key, sep) == Glue(names, DateTexts(key), sep, 1)
Units == << "year", "month", "day", "hour", "minute", "second" >>
UnitsOf(n) == SubSeq(Units, 1, n)

(* calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                     [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] OTHER -> 31
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
At(key, j, default) == IF j <= Len(key) THEN key[j] ELSE default
DateEncode(key) ==
  << Days(key[1], At(key, 2, 1), At(key, 3, 1)),
     3600 * At(key, 4, 0) + 60 * At(key, 5, 0) + At(key, 6, 0) >>
ValidDate(key) ==
  /\ key[1] \in 1..9999
  /\ At(key, 2, 1) \in 1..12
  /\ At(key, 3, 1) \in 1..MonthDays(key[1], At(key, 2, 1))
  /\ At(key, 4, 0) \in 0..23 /\ At(key, 5, 0) \in 0..59 /\ At(key, 6, 0) \in 0..59
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
===============================================================================
