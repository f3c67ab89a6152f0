------------------------------ MODULE JudgeCompute ------------------------------
(* Judges recorded computations: every way of computing an expression.          *)
EXTENDS Compute, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, bad
T(name, ok) == IF ok THEN {} ELSE {name}
EnvOf(c) == [ n \in DOMAIN c.arrays |-> Cells(c.arrays[n].raw, c.arrays[n].fill) ]
Judge(c) == LET want == Eval(c.tree, EnvOf(c)) IN
  UNION { LET r == c.runs[k] IN
    IF c.undefined THEN T(r.how \o ": undefined name accepted", r.res = "undefined")
    ELSE IF r.res # "ok" THEN { r.how \o ": failed" }
    ELSE T(r.how \o ": shape", r.shape = (IF want.one THEN <<>> ELSE c.shape))
         \cup T(r.how \o ": values", r.cells = want.v)
         \cup T(r.how \o ": operands changed", r.unchanged)
    : k \in 1..Len(c.runs) }
Init == i \in 1..Len(Cases) /\ bad = Judge(Cases[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Inv == bad = {}
================================================================================
