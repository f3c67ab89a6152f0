----------------------------- MODULE JudgePeriod -----------------------------
(* Judges recorded evaluations of the real Period class.                        *)
EXTENDS Period, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, bad
P(x) == [b |-> x[1], l |-> x[2]]
SetOf(x) == IF x[2] < x[1] THEN {} ELSE x[1] .. x[2]
Sgn(x, S) == IF S = {} THEN x[2] < x[1] ELSE SetOf(x) = S
Bad(c) ==
  LET p == P(c.p)  q == P(c.q)  x == c.x  d == c.d  o == c.obs
      r == Relation(p, q)
      T(name, ok) == IF ok THEN {} ELSE {name}
  IN IF "error" \in DOMAIN o THEN {"error"} ELSE
     T("build", o.build = c.p) \cup T("length", o.length = Cardinality(Inst(p)))
     \cup T("from_duration", o.from_duration = c.p)
     \cup T("end", o.end = MaxI(Inst(p)) + 1)
     \cup T("null", o.null = FALSE) \cup T("null_of_empty", o.null_empty = TRUE)
     \cup T("null_after", o.null_after = FALSE) \cup T("null_before", o.null_before = FALSE)
     \cup T("null_point", o.null_point = FALSE) \cup T("null_length", o.null_length = 0)
     \cup T("other_type", o.other_type = FALSE)
     \cup T("eq", o.eq = (Inst(p) = Inst(q))) \cup T("ne", o.ne = (Inst(p) # Inst(q)))
     \cup T("lt", o.lt = Less(p, q))
     \cup T("contains", o.contains = Contains(p, q))
     \cup T("contains_point", o.contains_point = ContainsPoint(p, x))
     \cup T("adjacent", o.adjacent = Adjacent(p, q))
     \cup T("is_after", o.is_after = IsAfterPoint(p, x))
     \cup T("is_before", o.is_before = IsBeforePoint(p, x))
     \cup T("intersects", o.intersects = Intersects(p, q))
     \cup T("intersection", Sgn(o.intersection, Intersection(p, q)))
     \cup T("merge", Sgn(o.merge, Merge(p, q)))
     \cup T("span", Sgn(o.span, Span(p, q)))
     \cup T("shift", Sgn(o.shift, Shift(p, c.ds)))
     \cup T("expand", Sgn(o.expand, Expand(p, d)))
     \cup T("operands", o.after_p = c.p /\ o.after_q = c.q)
     \cup T("relation", o.relation = r)
     \cup T("rel_after", o.rel_after = RelAfter(r)) \cup T("rel_before", o.rel_before = RelBefore(r))
     \cup T("rel_contains", o.rel_contains = RelContains(r))
     \cup T("rel_inside", o.rel_inside = RelInside(r))
     \cup T("rel_bo", o.rel_bo = RelBeforeOverlap(r)) \cup T("rel_ao", o.rel_ao = RelAfterOverlap(r))
     \cup T("pickle", o.pickle = c.p)
Init == i \in 1..Len(Cases) /\ bad = Bad(Cases[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Inv == bad = {}
=============================================================================
