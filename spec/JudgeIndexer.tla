----------------------------- MODULE JudgeIndexer ----------------------------
(* Judges recorded histories of an index of a collection with a view.          *)
EXTENDS Indexer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, ref, vw, ix, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Start(c) == [ vars |-> c.vars, fixed |-> Rng(c.fixed), axis |-> c.axis, ident |-> c.ident,
              imm |-> c.imm, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
NoView == [ none |-> TRUE ]
Ok(o) == o.res = "ok"
(* rows of a table: [ key, start, stop, pas, flag ], in any order, no duplicates lost *)
RowsOfIndex(x) == UNION { { <<k, x[k][j].start, x[k][j].stop, x[k][j].pas, x[k][j].flag>> :
                            j \in 1..Len(x[k]) } : k \in DOMAIN x }
Total(x) == LET RECURSIVE Sum(_) Sum(S) == IF S = {} THEN 0 ELSE
                LET k == CHOOSE k \in S : TRUE IN Len(x[k]) + Sum(S \ {k}) IN Sum(DOMAIN x)
TableIs(name, rows, x) == T(name, Len(rows) = Total(x) /\ Rng(rows) = RowsOfIndex(x))

(* result of a query: sequence of [ key, extra, start, stop ] *)
OfKey(ret, k) == SelectSeq(ret, LAMBDA r : r.key = k)
Cover(q) == UNION { q[j].start..(q[j].stop - 1) : j \in 1..Len(q) }
QueryIs(o, x) ==
  LET q == o.q ret == o.ret ks == { ret[j].key : j \in 1..Len(ret) } IN
  T("partitions", ks = QueryKeys(x, q))
  \cup T("order", \A j \in 1..(Len(ret) - 1) :
            ret[j].key = ret[j + 1].key \/ LexLess(ret[j].key, ret[j + 1].key))
  \cup T("proper_slices", \A j \in 1..Len(ret) : ret[j].start < ret[j].stop)
  \cup T("rows", \A k \in ks : Cover(OfKey(ret, k)) = QueryRows(x, k, q))
  \cup (IF q.keysonly
        THEN T("rows_once", \A j \in 1..(Len(ret) - 1) : ret[j].key = ret[j + 1].key =>
                   ret[j].stop <= ret[j + 1].start)
             \cup T("columns", \A j \in 1..Len(ret) : ret[j].extra = <<>>)
        ELSE T("columns", \A k \in ks : \A g \in { e.extra : e \in Rng(OfKey(ret, k)) } :
               Cover(SelectSeq(OfKey(ret, k), LAMBDA r : r.extra = g))
                 = RowsIn(SelectSeq(Matching(x, k, q), LAMBDA e : <<e.pas, e.flag>> = g))))
LoadIs(o, x, w, y, kind, var) ==
  LET base == IF o.op = "iload" THEN x ELSE Joined(x, w)
      want == { k \in QueryKeys(y, o.q) : Sat(o.filter, k)
                  /\ (o.op = "iload" \/ k \in DOMAIN w.parts) }
      keys == SortedKeys(want)
      fresh == \A k \in QueryKeys(y, o.q) : Fresh(y, x, k, kind, var)
  IN IF ~fresh THEN {} ELSE
     T("outcome", o.res = IF want = {} THEN "none" ELSE "ok")
     \cup (IF ~Ok(o) \/ want = {} THEN {}
           ELSE T("loaded", Same(o.cols, LoadThrough(base, keys, y, o.q, o.chosen))))

Result(c, x, w, y, o) ==
  CASE o.op = "insert" -> [ ref |-> Insert(x, o.ds, o.merge), vw |-> w, ix |-> y,
                            bad |-> T("outcome", Ok(o)) ]
    [] o.op = "drop" -> [ ref |-> Drop(x, o.filter), vw |-> w, ix |-> y, bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vcreate" -> [ ref |-> x, vw |-> Create(x, o.filter), ix |-> y,
                             bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vadd" -> [ ref |-> x, vw |-> VAdd(x, w, o.var), ix |-> y, bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vsync" -> [ ref |-> x, vw |-> Sync(x, w), ix |-> y, bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vupdate" -> [ ref |-> x, ix |-> y, bad |-> T("outcome", Ok(o)),
         vw |-> IF VSelected(x, w, o.filter) = <<>> THEN w
                ELSE VUpdate(x, w, VSelected(x, w, o.filter), o.u) ]
    [] o.op = "iupdate" ->
         [ ref |-> x, vw |-> w, ix |-> IndexUpdate(y, x, Selected(x, o.filter), c.kind, c.grp),
           bad |-> T("outcome", Ok(o)) ]
    [] o.op = "ireopen" -> [ ref |-> x, vw |-> w, ix |-> y,
         bad |-> T("outcome", Ok(o)) \cup T("metadata", o.same) ]
    [] o.op = "iquery" -> [ ref |-> x, vw |-> w, ix |-> y,
         bad |-> T("outcome", Ok(o)) \cup (IF Ok(o) THEN QueryIs(o, y) ELSE {}) ]
    [] o.op \in {"iload", "viload"} -> [ ref |-> x, vw |-> w, ix |-> y,
         bad |-> LoadIs(o, x, w, y, c.kind, c.grp) ]

Init == i \in 1..Len(Cases) /\ s = 0 /\ ref = Start(Cases[i]) /\ vw = NoView /\ ix = <<>> /\ bad = {}
Next == /\ bad = {} /\ s < Len(Cases[i].steps)
        /\ LET o == Cases[i].steps[s + 1]
               r == Result(Cases[i], ref, vw, ix, o)
           IN /\ ref' = r.ref /\ vw' = r.vw /\ ix' = r.ix
              /\ bad' = r.bad \cup TableIs("index_in_memory", o.table, r.ix)
                              \cup TableIs("index_on_disk", o.table_disk, r.ix)
        /\ s' = s + 1 /\ i' = i
Inv == bad = {}
=============================================================================
