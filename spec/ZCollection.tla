----------------------------- MODULE ZCollection -----------------------------
(* A collection: what its operations do to the stored data and what they       *)
(* return.  Every operation is a function of the state and of its arguments,   *)
(* so the same text is model checked (MCCollection) and used to judge recorded *)
(* executions of the real code (JudgeCollection).                              *)
(*                                                                             *)
(* A column is a sequence with one element per row: an integer for a variable  *)
(* of one dimension (width 0), a sequence of integers otherwise.  A data set   *)
(* of one partition is a function from the names of variables to columns.      *)
EXTENDS Partitioning, TimeSeriesMerge

MISSING == -999999999

(* st.vars: declared variable -> width;  st.fixed: variables that cannot be    *)
(* dropped (keys, axis excepted);  st.imm: variable -> value (not partitioned); *)
(* st.immset: whether they were stored;  st.parts: key -> data of the          *)
(* partition;  st.damaged: keys of the partitions that cannot be read.         *)

MissingOf(width) == IF width = 0 THEN MISSING ELSE [ j \in 1..width |-> MISSING ]
Column(n, value) == [ k \in 1..n |-> value ]
Size(data) == IF DOMAIN data = {} THEN 0 ELSE Len(data[CHOOSE v \in DOMAIN data : TRUE])
Only(f, S) == [ x \in S \cap DOMAIN f |-> f[x] ]
(* equality of functions, whatever their domain *)
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Keys(st) == SortedKeys(DOMAIN st.parts)

(******************************* filters *************************************)
(* A filter is a term over the components of the key (numbered from 1).        *)
RECURSIVE Sat(_, _)
Sat(f, key) ==
  CASE f[1] = "all" -> TRUE
    [] f[1] = "none" -> FALSE
    [] f[1] = "eq" -> key[f[2]] = f[3]
    [] f[1] = "ne" -> key[f[2]] # f[3]
    [] f[1] = "lt" -> key[f[2]] < f[3]
    [] f[1] = "le" -> key[f[2]] <= f[3]
    [] f[1] = "gt" -> key[f[2]] > f[3]
    [] f[1] = "ge" -> key[f[2]] >= f[3]
    [] f[1] = "mod" -> key[f[2]] % f[3] = f[4]
    [] f[1] = "in" -> \E j \in 1..Len(f[3]) : f[3][j] = key[f[2]]
    [] f[1] = "range" -> key[f[2]] >= f[3] /\ key[f[2]] < f[4]
    [] f[1] = "and" -> Sat(f[2], key) /\ Sat(f[3], key)
    [] f[1] = "or" -> Sat(f[2], key) \/ Sat(f[3], key)
    [] f[1] = "not" -> ~Sat(f[2], key)
Selected(st, f) == SelectSeq(Keys(st), LAMBDA k : Sat(f, k))

(******************************* insertion ***********************************)
(* ds.keys: the key of each row, ds.cols: variable -> column.                  *)
RowsOf(cols, a, b) == [ v \in DOMAIN cols |-> SubSeq(cols[v], a, b) ]
Complete(st, cols, n) ==
  [ v \in DOMAIN st.vars |-> IF v \in DOMAIN cols THEN cols[v]
                             ELSE Column(n, MissingOf(st.vars[v])) ]
Concat(a, b) == [ v \in DOMAIN a |-> a[v] \o b[v] ]

(* Merge of two data sets of one partition. *)
Pick(old, new, rows) ==
  [ v \in DOMAIN new |-> [ k \in 1..Len(rows) |->
      IF rows[k][2] = 0 THEN old[v][rows[k][3]] ELSE new[v][rows[k][3]] ] ]
Tagged(dates, tag) == [ k \in 1..Len(dates) |-> <<dates[k], tag, k>> ]
MergeData(st, m, old, new) ==
  CASE m.kind = "replace" -> new
    [] m.kind = "concat" -> Concat(old, new)
    [] m.kind = "keep" -> old
    [] m.kind = "series" ->
         Pick(old, new, MergeSeries(Tagged(old[st.axis], 0), Tagged(new[st.axis], 1), m.tol))

InsertOk(st, ds) == DOMAIN ds.cols \subseteq DOMAIN st.vars \cup DOMAIN st.imm
                    /\ NonDecreasing(ds.keys)
(* checked: the declaration of the data set must be that of the collection *)
InsertAsked(st, ds, checked, npart) ==
  InsertOk(st, ds) /\ ~(checked /\ ds.other # "") /\ npart # 0
Insert(st, ds, m) ==
  LET own == Only(ds.cols, DOMAIN st.vars)
      cols == Complete(st, own, Len(ds.keys))
      slices == Split(ds.keys)
      news == { slices[j][1] : j \in 1..Len(slices) }
      sub(k) == LET j == CHOOSE j \in 1..Len(slices) : slices[j][1] = k
                IN RowsOf(cols, slices[j][2] + 1, slices[j][3])
      now(k) == IF k \in news
                THEN (IF k \in DOMAIN st.parts THEN MergeData(st, m, st.parts[k], sub(k)) ELSE sub(k))
                ELSE st.parts[k]
  IN IF Len(ds.keys) = 0 THEN st ELSE
     [ st EXCEPT !.parts = [ k \in DOMAIN st.parts \cup news |-> now(k) ],
                 !.immset = TRUE,
                 !.imm = IF st.immset \/ DOMAIN st.imm = {} THEN st.imm
                         ELSE [ v \in DOMAIN st.imm |-> ds.imm[v] ] ]
Inserted(ds) == LET s == Split(ds.keys) IN [ j \in 1..Len(s) |-> s[j][1] ]

(******************************* drop, load **********************************)
Drop(st, f) == [ st EXCEPT !.parts = Only(st.parts,
                   { k \in DOMAIN st.parts : ~Sat(f, k) }),
                 !.damaged = { k \in st.damaged : ~Sat(f, k) } ]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
(* chosen: <<>> for all the variables, else <<names>>  *)
Wanted(names, chosen) == IF chosen = <<>> THEN names
                         ELSE names \cap { chosen[1][j] : j \in 1..Len(chosen[1]) }
Load(st, keys, chosen) ==
  [ v \in Wanted(DOMAIN st.vars, chosen) |->
      Flatten([ j \in 1..Len(keys) |-> st.parts[keys[j]][v] ]) ]
LoadImm(st, chosen) == Only(st.imm, Wanted(DOMAIN st.imm, chosen))

(* Loading through an index: a sequence of <<key, first row from 0, end>>; the  *)
(* slices of a partition in the order of the index, the partitions in theirs.  *)
Indexed(st, f, index) ==
  SelectSeq(Selected(st, f), LAMBDA k : \E j \in 1..Len(index) : index[j][1] = k)
Cut(q, a, b) == SubSeq(q, a + 1, IF b > Len(q) THEN Len(q) ELSE b)
LoadSlices(st, keys, index, chosen) ==
  LET of(k) == SelectSeq(index, LAMBDA e : e[1] = k)
  IN [ v \in Wanted(DOMAIN st.vars, chosen) |->
        Flatten([ j \in 1..Len(keys) |-> LET es == of(keys[j]) IN
          Flatten([ m \in 1..Len(es) |-> Cut(st.parts[keys[j]][v], es[m][2], es[m][3]) ]) ]) ]

(******************************* mapping *************************************)
(* Keys seen around the p-th selected one. *)
Window(keys, p, depth) ==
  SubSeq(keys, IF p - depth < 1 THEN 1 ELSE p - depth,
               IF p + depth > Len(keys) THEN Len(keys) ELSE p + depth)
Before(st, keys, p, depth) ==
  LET w == SubSeq(keys, IF p - depth < 1 THEN 1 ELSE p - depth, p - 1)
      sizes == [ j \in 1..Len(w) |-> Size(st.parts[w[j]]) ]
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN 0 ELSE sizes[j] + Sum(j - 1)
  IN Sum(Len(w))
Seen(st, keys, p, depth, chosen) ==
  LET first == Before(st, keys, p, depth)
  IN [ key |-> keys[p], cols |-> Load(st, Window(keys, p, depth), chosen),
       imm |-> LoadImm(st, chosen),
       start |-> first, stop |-> first + Size(st.parts[keys[p]]) ]
Map(st, keys, depth, chosen) ==
  [ p \in 1..Len(keys) |-> Seen(st, keys, p, depth, chosen) ]

(******************************* update **************************************)
(* u.kind: function; u.targets: updated variables; values computed for one row *)
(* from the identifiers seen and the row itself.                               *)
Widen(width, value) == IF width = 0 THEN value
                       ELSE [ j \in 1..width |-> IF value = MISSING THEN MISSING ELSE value + j ]
RowValue(kind, c, seen, x) ==
  CASE kind = "const" -> c
    [] kind = "linear" -> 2 * x + c
    [] kind = "mask" -> IF x % 2 = 0 THEN MISSING ELSE x + c
    [] kind = "window" -> x + 7 * Len(seen) + seen[1] + 3 * seen[Len(seen)]
Update(st, keys, u) ==
  LET new(p) == LET seen == Load(st, Window(keys, p, u.depth), <<>>)[st.ident]
                    own == st.parts[keys[p]]
                IN [ v \in DOMAIN own |->
                       IF \E j \in 1..Len(u.targets) : u.targets[j] = v
                       THEN [ k \in 1..Len(own[v]) |->
                              Widen(st.vars[v], RowValue(u.kind, u.c, seen, own[st.ident][k])) ]
                       ELSE own[v] ]
      at(k) == CHOOSE p \in 1..Len(keys) : keys[p] = k
      sel == { keys[p] : p \in 1..Len(keys) }
  IN [ st EXCEPT !.parts = [ k \in DOMAIN st.parts |->
                    IF k \in sel THEN new(at(k)) ELSE st.parts[k] ] ]
(* An update that reads, in the partitions around, the very variable it updates: *)
(* each row takes its identifier plus the sum of the values seen.  The update   *)
(* reads the data as it was; InTurn is what is obtained when the partitions are *)
(* read and rewritten one after the other.                                     *)
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1] + SumOf(Tail(q))
SumOne(st, from, keys, p, depth, v) ==
  LET total == SumOf(Load(from, Window(keys, p, depth), <<>>)[v])
  IN [ st EXCEPT !.parts[keys[p]][v] =
         [ k \in 1..Len(st.parts[keys[p]][v]) |-> st.parts[keys[p]][st.ident][k] + total ] ]
RECURSIVE SumUpdate(_, _, _, _, _, _, _)
SumUpdate(st, from, keys, p, depth, v, inturn) ==
  IF p > Len(keys) THEN st
  ELSE LET next == SumOne(st, from, keys, p, depth, v)
       IN SumUpdate(next, IF inturn THEN next ELSE from, keys, p + 1, depth, v, inturn)

UpdateOk(st, u) == \A j \in 1..Len(u.targets) : u.targets[j] \in DOMAIN st.vars

(******************************* schema **************************************)
AddOk(st, v) == /\ v.name \notin DOMAIN st.vars \cup DOMAIN st.imm
                /\ v.hasdim /\ v.knowndims
AddVariable(st, v) ==
  [ st EXCEPT !.vars = [ x \in DOMAIN st.vars \cup {v.name} |->
                           IF x = v.name THEN v.width ELSE st.vars[x] ],
              !.parts = [ k \in DOMAIN st.parts |->
                 [ x \in DOMAIN st.parts[k] \cup {v.name} |->
                     IF x = v.name THEN Column(Size(st.parts[k]), MissingOf(v.width))
                     ELSE st.parts[k][x] ] ] ]
DropVarOk(st, name) == name \in DOMAIN st.vars \ (st.fixed \cup {st.axis})
DropVariable(st, name) ==
  [ st EXCEPT !.vars = Only(st.vars, DOMAIN st.vars \ {name}),
              !.parts = [ k \in DOMAIN st.parts |->
                            Only(st.parts[k], DOMAIN st.parts[k] \ {name}) ] ]

(******************************* repair **************************************)
Invalid(st, f) == SelectSeq(Selected(st, f), LAMBDA k : k \in st.damaged)
Repair(st, f) == [ st EXCEPT !.parts = Only(st.parts,
                       { k \in DOMAIN st.parts : ~(k \in st.damaged /\ Sat(f, k)) }),
                   !.damaged = { k \in st.damaged : ~Sat(f, k) } ]
(******************************* copy ****************************************)
CopyOf(st, f) == [ st EXCEPT !.parts = Only(st.parts, { k \in DOMAIN st.parts : Sat(f, k) }) ]

(***************************** consistency ***********************************)
SchemaOk(st) == \A k \in DOMAIN st.parts :
   /\ DOMAIN st.parts[k] = DOMAIN st.vars
   /\ \A v, w \in DOMAIN st.vars : Len(st.parts[k][v]) = Len(st.parts[k][w])
=============================================================================
