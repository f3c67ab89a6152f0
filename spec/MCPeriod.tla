------------------------------ MODULE MCPeriod ------------------------------
(* Exhaustive check of the period algebra on 0..N, and enumeration of the       *)
(* cases replayed into the real code.                                           *)
EXTENDS Period, Json, IOUtils, TLC, SequencesExt
CONSTANT N
VARIABLES p, q
Periods == { x \in [b : 0..N, l : 0..N] : x.b <= x.l }
Init == p \in Periods /\ q \in Periods
Next == FALSE /\ UNCHANGED <<p, q>>
OneRelation == Relation(p, q) \in Relations
ConverseOk == Relation(q, p) = Converse(Relation(p, q))
Groups == LET r == Relation(p, q)
  IN Cardinality({ g \in {"a","b","c","i","bo","ao"} :
       CASE g = "a" -> RelAfter(r) [] g = "b" -> RelBefore(r) [] g = "c" -> RelContains(r)
         [] g = "i" -> RelInside(r) [] g = "bo" -> RelBeforeOverlap(r)
         [] g = "ao" -> RelAfterOverlap(r) }) = 1
ContainsOk == RelContains(Relation(p, q)) => Contains(p, q)
DisjointOk == (Relation(p, q) \in {"AFTER", "BEFORE"}) <=> ~Intersects(p, q)
AdjacentOk == Adjacent(p, q) => Relation(p, q) \in {"AFTER", "BEFORE"}
SpanOk == Inst(p) \subseteq Span(p, q) /\ Inst(q) \subseteq Span(p, q)
MergeOk == Intersects(p, q) => Merge(p, q) = Span(p, q)
Inv == OneRelation /\ ConverseOk /\ Groups /\ ContainsOk /\ DisjointOk /\ AdjacentOk /\ SpanOk /\ MergeOk
(* all pairs, written as JSON for the driver *)
Cases == SetToSeq({ <<x.b, x.l, y.b, y.l>> : x \in Periods, y \in Periods })
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, Cases)
=============================================================================
