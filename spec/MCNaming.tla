------------------------------ MODULE MCNaming --------------------------------
(* Every pair of keys of a small domain: distinct keys have distinct names and  *)
(* distinct encoded values, in the order of the keys.                           *)
EXTENDS Naming, FiniteSets
CONSTANTS Values, Years
VARIABLES a, b
SeqNames == << "a", "b" >>
Texts(k) == [ j \in 1..Len(k) |-> ToString(k[j]) ]
SeqKeys == [ 1..2 -> Values \cup { -v : v \in Values } ]
DateKeys == { k \in [ 1..3 -> Years \cup (1..12) \cup {28, 29, 30, 31} ] :
                k[1] \in Years /\ k[2] \in {1, 2, 3, 12} /\ k[3] \in {1, 2, 28, 29, 30, 31}
                /\ ValidDate(k) }
Init == \/ a \in SeqKeys /\ b \in SeqKeys
        \/ a \in DateKeys /\ b \in DateKeys
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Injective ==
  IF Len(a) = 2
  THEN a # b => SeqName(SeqNames, Texts(a), "/") # SeqName(SeqNames, Texts(b), "/")
  ELSE a # b => DateName(UnitsOf(3), a, "/") # DateName(UnitsOf(3), b, "/")
Ordered ==
  Len(a) = 3 => (LexLess(a, b) <=> LexLess(DateEncode(a), DateEncode(b)))
(* The last day of each month is followed by the first of the next one.         *)
Contiguous ==
  Len(a) = 3 => Days(a[1], a[2], 1) + MonthDays(a[1], a[2])
                  = (IF a[2] = 12 THEN Days(a[1] + 1, 1, 1) ELSE Days(a[1], a[2] + 1, 1))
Inv == Injective /\ Ordered /\ Contiguous
===============================================================================
