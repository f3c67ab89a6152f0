------------------------------ MODULE MCIndexer ------------------------------
(* A collection of two keys whose single column is replaced and indexed.       *)
EXTENDS Indexer, Json, IOUtils
CONSTANTS Depth0, MaxLen, Values
VARIABLES st, ix, kind, n, prev, op
vars == <<st, ix, kind, n, prev, op>>
Start == [ vars |-> [ grp |-> 0 ], fixed |-> {}, axis |-> "grp", ident |-> "grp", imm |-> <<>>,
           immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
K == { <<1>>, <<2>> }
Columns == UNION { [ 1..m -> Values ] : m \in 1..MaxLen }
Filters == { <<"all">>, <<"eq", 1, 1>>, <<"ne", 1, 1>> }
Put(x, k, c) == [ x EXCEPT !.parts = [ y \in DOMAIN x.parts \cup {k} |->
                      IF y = k THEN [ grp |-> c ] ELSE x.parts[y] ] ]
Init == /\ st = Start /\ ix = <<>> /\ kind \in {"runs", "rows", "windows"}
        /\ n = 0 /\ prev = <<>> /\ op = <<"start">>
Next == /\ n < Depth0 /\ n' = n + 1 /\ prev' = ix /\ kind' = kind
        /\ \/ \E k \in K, c \in Columns : st' = Put(st, k, c) /\ ix' = ix /\ op' = <<"put">>
           \/ \E f \in Filters : /\ ix' = IndexUpdate(ix, st, Selected(st, f), kind, "grp")
                                 /\ st' = st /\ op' = <<"update", f>>
Q(c, o) == [ criteria |-> c, op |-> o, mask |-> <<>> ]
Criteria == { << <<"pas", <<1>> >> >>, << <<"pas", <<0, 2>> >> >>, << <<"flag", <<1>> >> >>,
              << <<"pas", <<1, 2>> >>, <<"flag", <<1>> >> >>,
              << <<"1", <<1>> >>, <<"pas", <<2>> >> >>, <<>> }
(* an update replaces the entries of its partitions only *)
Updated == op[1] = "update" => \A k \in K :
   IF k \in DOMAIN st.parts /\ Sat(op[2], k)
   THEN (IF k \in DOMAIN ix THEN ix[k] ELSE <<>>) = Entries(kind, st.parts[k].grp)
   ELSE (k \in DOMAIN ix <=> k \in DOMAIN prev) /\ (k \in DOMAIN ix => ix[k] = prev[k])
(* the slices cover exactly the matching rows, once, within the partition *)
Covered == \A k \in DOMAIN ix : \A c \in Criteria : \A o \in {"and", "or", "xor", "and_not"} :
   LET rows == QueryRows(ix, k, Q(c, o)) s == SlicesOf(rows) IN
   /\ rows = UNION { s[j][1]..(s[j][2] - 1) : j \in 1..Len(s) }
   /\ \A j \in 1..(Len(s) - 1) : s[j][2] < s[j + 1][1]
   /\ (Fresh(ix, st, k, kind, "grp") => rows \subseteq 0..(Len(st.parts[k].grp) - 1))
   /\ (Fresh(ix, st, k, kind, "grp") =>
        Len(PickRows(st.parts[k].grp, rows, 1)) = Cardinality(rows))
(* runs: the rows found for a value are those holding it *)
RunsExact == kind = "runs" => \A k \in DOMAIN ix : Fresh(ix, st, k, kind, "grp") =>
   \A v \in Values : QueryRows(ix, k, Q(<< <<"pas", <<v>> >> >>, "and"))
       = { j \in 0..(Len(st.parts[k].grp) - 1) : st.parts[k].grp[j + 1] = v }
Logic == \A k \in DOMAIN ix : \A c \in Criteria :
   /\ QueryRows(ix, k, Q(c, "and")) \subseteq QueryRows(ix, k, Q(c, "or"))
   /\ QueryRows(ix, k, Q(<<>>, "and")) = RowsIn(ix[k])
Inv == Updated /\ Covered /\ RunsExact /\ Logic
=============================================================================
