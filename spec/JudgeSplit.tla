----------------------------- MODULE JudgeSplit ------------------------------
(* Judges recorded splits of datasets and insertions by the real code.         *)
EXTENDS Partitioning, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Keys(c) == IF c.kind = "date" THEN [ k \in 1..Len(c.rows) |-> DateKey(c.res, c.rows[k]) ]
           ELSE c.rows
(* names are compared as text when the keys are small integers; large keys are
   sequences of limbs, and the driver gives the parsed name in the same form *)
Parts(c, key) == IF c.kind = "date" THEN DateParts(key)
                 ELSE IF c.kind = "limbs" THEN key ELSE SeqParts(c.names, key)
Bad(c) ==
  LET keys == Keys(c)  ok == NonDecreasing(keys)  o == c.obs  e == Split(keys)
      expected == [ j \in 1..Len(e) |-> <<Parts(c, e[j][1]), e[j][2], e[j][3]>> ]
      filed == [ j \in 1..Len(e) |->
                  <<Parts(c, e[j][1]), [ k \in 1..e[j][3] - e[j][2] |-> e[j][2] + k ]>> ]
  IN IF ~ok THEN T("accepted_unsorted", o.refused) \cup T("filed_although_refused", o.filed = <<>>)
     ELSE IF o.error # "" THEN {"error"}
     ELSE T("slices", o.slices = expected)
          \cup T("operand", o.operand_unchanged)
          \cup (IF c.insert THEN T("filed", o.filed = filed) ELSE {})
Init == i \in 1..Len(Cases) /\ bad = Bad(Cases[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Inv == bad = {}
=============================================================================
