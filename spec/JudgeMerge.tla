----------------------------- MODULE JudgeMerge ------------------------------
(* Judges recorded merges performed by the real code.                           *)
EXTENDS TimeSeriesMerge, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Bad(c) ==
  IF c.obs.error # "" THEN {"error"} ELSE
  T("merged", c.obs.rows = MergeSeries(c.old, c.new, c.tol))
  \cup T("sorted", SortedByDate(c.obs.rows))
  \cup T("operands", c.obs.old = c.old /\ c.obs.new = c.new)
Init == i \in 1..Len(Cases) /\ bad = Bad(Cases[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Inv == bad = {}
=============================================================================
