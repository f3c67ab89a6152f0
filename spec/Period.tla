------------------------------- MODULE Period -------------------------------
(* Periods of time as sets of instants (integers).  A period [b |-> x, l |-> y] *)
(* with x <= y covers the instants x..y.  Every operation of                    *)
(* zcollection.merging.period.Period is specified on the covered instants.      *)
EXTENDS Integers, FiniteSets, Sequences

Inst(p) == p.b .. p.l
Null(p) == p.l < p.b
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y
Of(S) == [b |-> MinI(S), l |-> MaxI(S)]          \* S non-empty and convex
AllBefore(S, T) == \A x \in S : \A y \in T : x < y

Contains(p, q) == Inst(q) \subseteq Inst(p)
ContainsPoint(p, x) == x \in Inst(p)
Intersects(p, q) == Inst(p) \cap Inst(q) # {}
(* next to each other: disjoint and the union has no hole *)
Adjacent(p, q) == /\ ~Intersects(p, q)
                  /\ LET U == Inst(p) \cup Inst(q)
                     IN Cardinality(U) = MaxI(U) - MinI(U) + 1
Less(p, q) == AllBefore(Inst(p), Inst(q))
IsAfterPoint(p, x) == \A y \in Inst(p) : x < y
IsBeforePoint(p, x) == \A y \in Inst(p) : y < x
Intersection(p, q) == Inst(p) \cap Inst(q)        \* {} stands for a null period
Merge(p, q) == IF Intersects(p, q) THEN Inst(p) \cup Inst(q) ELSE {}
Span(p, q) == LET U == Inst(p) \cup Inst(q) IN MinI(U) .. MaxI(U)
Shift(p, d) == { x + d : x \in Inst(p) }
Expand(p, d) == (MinI(Inst(p)) - d) .. (MaxI(Inst(p)) + d)

(* The thirteen relations of the first period p to the second one q.            *)
Relation(p, q) ==
  LET P == Inst(p)  Q == Inst(q)
      pb == MinI(P)  pl == MaxI(P)  qb == MinI(Q)  ql == MaxI(Q)
  IN CASE AllBefore(Q, P) -> "AFTER"
       [] AllBefore(P, Q) -> "BEFORE"
       [] P = Q -> "EXACT_MATCH"
       [] P # Q /\ P \cap Q = {pb} /\ ql = pb -> "START_TOUCHING"
       [] P # Q /\ P \cap Q = {pl} /\ qb = pl /\ ql # pb -> "END_TOUCHING"
       [] OTHER ->
          IF Q \subseteq P
          THEN IF qb = pb THEN "ENCLOSING_START_TOUCHING"
               ELSE IF ql = pl THEN "ENCLOSING_END_TOUCHING" ELSE "ENCLOSING"
          ELSE IF P \subseteq Q
          THEN IF qb = pb THEN "INSIDE_START_TOUCHING"
               ELSE IF ql = pl THEN "INSIDE_END_TOUCHING" ELSE "INSIDE"
          ELSE IF pb \in Q THEN "START_INSIDE" ELSE "END_INSIDE"

Relations == {"AFTER", "START_TOUCHING", "START_INSIDE", "INSIDE_START_TOUCHING",
  "ENCLOSING_START_TOUCHING", "ENCLOSING", "ENCLOSING_END_TOUCHING", "EXACT_MATCH",
  "INSIDE", "INSIDE_END_TOUCHING", "END_INSIDE", "END_TOUCHING", "BEFORE"}

Converse(r) ==
  CASE r = "AFTER" -> "BEFORE" [] r = "BEFORE" -> "AFTER"
    [] r = "START_TOUCHING" -> "END_TOUCHING" [] r = "END_TOUCHING" -> "START_TOUCHING"
    [] r = "START_INSIDE" -> "END_INSIDE" [] r = "END_INSIDE" -> "START_INSIDE"
    [] r = "INSIDE_START_TOUCHING" -> "ENCLOSING_START_TOUCHING"
    [] r = "ENCLOSING_START_TOUCHING" -> "INSIDE_START_TOUCHING"
    [] r = "INSIDE_END_TOUCHING" -> "ENCLOSING_END_TOUCHING"
    [] r = "ENCLOSING_END_TOUCHING" -> "INSIDE_END_TOUCHING"
    [] r = "INSIDE" -> "ENCLOSING" [] r = "ENCLOSING" -> "INSIDE"
    [] r = "EXACT_MATCH" -> "EXACT_MATCH"

(* Groups of relations used by the merge algorithm. *)
RelAfter(r) == r = "AFTER"
RelBefore(r) == r = "BEFORE"
RelContains(r) == r \in {"ENCLOSING_END_TOUCHING", "ENCLOSING_START_TOUCHING", "ENCLOSING", "EXACT_MATCH"}
RelInside(r) == r = "INSIDE"
RelBeforeOverlap(r) == r \in {"END_INSIDE", "END_TOUCHING", "INSIDE_START_TOUCHING"}
RelAfterOverlap(r) == r \in {"START_INSIDE", "START_TOUCHING", "INSIDE_END_TOUCHING"}
=============================================================================
