------------------------------ MODULE JudgeStorage ------------------------------
(* Judges recorded writings and readings of one variable.                       *)
EXTENDS Storage, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, cells, bad
T(name, ok) == IF ok THEN {} ELSE {name}
ReadBad(c, want, r) ==
  IF "error" \in DOMAIN r THEN { r.how \o " failed" } ELSE
  T(r.how \o ": shape", r.shape = c.shape)
  \cup T(r.how \o ": type", r.dtype = c.dtype)
  \cup T(r.how \o ": values", r.cells = want)
  \cup T(r.how \o ": missing", r.raw \/ { k \in 1..Len(r.missing) : r.missing[k] } = Missing(want, c.fill))
After(c, o, now) == CASE o.op \in {"insert", "update", "createset"} -> Plain(o.given, o.mask, c.fill)
                      [] o.op = "create" -> Created(Len(now), c.fill)
                      [] OTHER -> now
Init == /\ i \in 1..Len(Cases) /\ s = 0 /\ bad = {} /\ cells = Cases[i].blank
Next == /\ bad = {} /\ s < Len(Cases[i].steps)
        /\ LET c == Cases[i]  o == c.steps[s + 1]  now == After(c, o, cells) IN
             /\ cells' = now
             /\ bad' = T("refused", o.res = "ok")
                       \cup UNION { ReadBad(c, now, o.reads[k]) : k \in 1..Len(o.reads) }
        /\ s' = s + 1 /\ i' = i
Inv == bad = {}
================================================================================
