------------------------------- MODULE Indexer -------------------------------
(* An index of a collection: for each partition, a table of entries            *)
(* [ start, stop, pas, flag ] computed from the data of the partition, rows     *)
(* numbered from 0, stop excluded.                                             *)
EXTENDS View

Entry(a, b, g) == [ start |-> a, stop |-> b, pas |-> g, flag |-> g % 2 ]
(* the functions used to index a partition, given the column of groups *)
RECURSIVE RunsFrom(_, _)
RunsFrom(col, a) ==  (* a: first row of the run, from 1 *)
  IF a > Len(col) THEN <<>>
  ELSE LET same == { b \in a..Len(col) : \A c \in a..b : col[c] = col[a] }
           b == CHOOSE b \in same : \A c \in same : c <= b
       IN <<Entry(a - 1, b, col[a])>> \o RunsFrom(col, b + 1)
Entries(kind, col) ==
  CASE kind = "runs" -> RunsFrom(col, 1)
    [] kind = "rows" -> LET keep == { a \in 1..Len(col) : col[a] # 0 }
                            RECURSIVE From(_)
                            From(a) == IF a > Len(col) THEN <<>>
                                       ELSE (IF a \in keep THEN <<Entry(a - 1, a, col[a])>> ELSE <<>>)
                                            \o From(a + 1)
                        IN From(1)
    [] kind = "windows" ->
         LET RECURSIVE From(_)
             From(a) == IF a > Len(col) THEN <<>>
                        ELSE (IF col[a] = 0 THEN <<>> ELSE
                              <<Entry(a - 1, IF a + col[a] > Len(col) THEN Len(col) ELSE a + col[a],
                                      col[a])>>) \o From(a + 1)
         IN From(1)

(* ix: key -> entries, for the keys having entries *)
IndexUpdate(ix, st, keys, kind, var) ==
  LET sel == { keys[j] : j \in 1..Len(keys) }
      new(k) == IF k \in sel THEN Entries(kind, st.parts[k][var]) ELSE ix[k]
  IN [ k \in { k \in DOMAIN ix \cup sel : new(k) # <<>> } |-> new(k) ]

(* criteria: sequence of <<column, values>>; column "pas", "flag", "start", "stop" *)
(* or the number of a component of the key                                     *)
ValueOf(k, e, column) ==
  CASE column = "pas" -> e.pas [] column = "flag" -> e.flag
    [] column = "start" -> e.start [] column = "stop" -> e.stop
    [] OTHER -> k[CHOOSE j \in 1..Len(k) : ToString(j) = column]
Holds(k, e, c) == \E j \in 1..Len(c[2]) : c[2][j] = ValueOf(k, e, c[1])
Matches(k, e, criteria, op) ==
  LET h(j) == Holds(k, e, criteria[j]) n == Len(criteria) IN
  n = 0 \/
  CASE op = "and" -> \A j \in 1..n : h(j)
    [] op = "or" -> \E j \in 1..n : h(j)
    [] op = "xor" -> Cardinality({ j \in 1..n : h(j) }) % 2 = 1
    [] op = "and_not" -> h(1) /\ \A j \in 2..n : ~h(j)
(* mask: <<>> or <<c>>: only the entries starting at c or later *)
Matching(ix, k, q) == SelectSeq(ix[k], LAMBDA e :
   (q.mask = <<>> \/ e.start >= q.mask[1]) /\ Matches(k, e, q.criteria, q.op))
RowsIn(es) == UNION { es[j].start..(es[j].stop - 1) : j \in 1..Len(es) }
QueryRows(ix, k, q) == IF k \in DOMAIN ix THEN RowsIn(Matching(ix, k, q)) ELSE {}
QueryKeys(ix, q) == { k \in DOMAIN ix : Matching(ix, k, q) # <<>> }

(* maximal slices of a set of rows, in order *)
RECURSIVE SlicesOf(_)
SlicesOf(rows) == IF rows = {} THEN <<>> ELSE
  LET a == CHOOSE a \in rows : \A b \in rows : a <= b
      ends == { b \in rows : a..b \subseteq rows }
      z == CHOOSE b \in ends : \A c \in ends : c <= b
  IN <<<<a, z + 1>>>> \o SlicesOf(rows \ (a..z))

(* loading through a query: the rows of the column, in order *)
RECURSIVE PickRows(_, _, _)
PickRows(col, rows, j) == IF j > Len(col) THEN <<>>
  ELSE (IF (j - 1) \in rows THEN <<col[j]>> ELSE <<>>) \o PickRows(col, rows, j + 1)
LoadThrough(st, keys, ix, q, chosen) ==
  [ v \in Wanted(DOMAIN st.vars, chosen) |->
      Flatten([ j \in 1..Len(keys) |->
        PickRows(st.parts[keys[j]][v], QueryRows(ix, keys[j], q), 1) ]) ]
(* the index describes the current data of this partition *)
Fresh(ix, st, k, kind, var) ==
  /\ k \in DOMAIN st.parts
  /\ ix[k] = Entries(kind, st.parts[k][var])
=============================================================================
