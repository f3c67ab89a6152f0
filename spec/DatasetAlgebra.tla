----------------------------- MODULE DatasetAlgebra -----------------------------
(* Datasets held in memory and the operations on them.                          *)
(* An array is a shape and its cells in row-major order; a dataset maps names   *)
(* to variables [dims, shape, cells, dtype, fill, attrs, codec] and has         *)
(* attributes, chunk sizes, a block size and a flavour (delayed or not).        *)
(* `stale`: dimensions that no variable has any more since some were dropped;   *)
(* what refers to them is left open.                                            *)
EXTENDS Storage, TLC
Same(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
RECURSIVE Prod(_)
Prod(q) == IF q = << >> THEN 1 ELSE Head(q) * Prod(Tail(q))
Size(v) == Prod(v.shape)
Outer(shape, ax) == Prod(SubSeq(shape, 1, ax - 1))
Inner(shape, ax) == Prod(SubSeq(shape, ax + 1, Len(shape)))
Axis(dims, d) == CHOOSE k \in 1..Len(dims) : dims[k] = d
Has(v, d) == \E k \in 1..Len(v.dims) : v.dims[k] = d

(* ------------------------------ plain arrays ------------------------------- *)
(* The cells whose index along the axis is idx[1], idx[2], ... (from 0).        *)
Take(shape, cells, ax, idx) ==
  LET n == shape[ax]  m == Len(idx)  inner == Inner(shape, ax)
  IN [ p \in 1..(Outer(shape, ax) * m * inner) |->
         LET q == p - 1 IN
         cells[(q \div (m * inner)) * n * inner + idx[((q \div inner) % m) + 1] * inner
               + (q % inner) + 1] ]
Join(sh1, c1, sh2, c2, ax) ==
  LET a == sh1[ax]  b == sh2[ax]  inner == Inner(sh1, ax)  m == a + b
  IN [ p \in 1..(Outer(sh1, ax) * m * inner) |->
         LET q == p - 1
             o == q \div (m * inner)  k == (q \div inner) % m  i == q % inner
         IN IF k < a THEN c1[o * a * inner + k * inner + i + 1]
            ELSE c2[o * b * inner + (k - a) * inner + i + 1] ]

(* --------------------------------- indices --------------------------------- *)
Omitted == 9999
Clip(x, n, lo, hi) == IF x < 0 THEN (IF x + n < lo THEN lo ELSE x + n)
                      ELSE IF x > hi THEN hi ELSE x
SliceIdx(n, s) ==
  LET lo == IF s.step > 0 THEN 0 ELSE -1
      hi == IF s.step > 0 THEN n ELSE n - 1
      from == IF s.a = Omitted THEN (IF s.step > 0 THEN 0 ELSE n - 1) ELSE Clip(s.a, n, lo, hi)
      to == IF s.b = Omitted THEN (IF s.step > 0 THEN n ELSE -1) ELSE Clip(s.b, n, lo, hi)
      count == IF s.step > 0 THEN (IF to > from THEN (to - from - 1) \div s.step + 1 ELSE 0)
               ELSE (IF from > to THEN (from - to - 1) \div (-(s.step)) + 1 ELSE 0)
  IN [ k \in 1..count |-> from + (k - 1) * s.step ]
InRange(n, s) == s.kind = "slice" \/ \A k \in 1..Len(s.idx) : s.idx[k] >= -n /\ s.idx[k] < n
Idx(n, s) == IF s.kind = "slice" THEN SliceIdx(n, s)
             ELSE [ k \in 1..Len(s.idx) |-> IF s.idx[k] < 0 THEN s.idx[k] + n ELSE s.idx[k] ]
SetOf(q) == { q[k] : k \in 1..Len(q) }
RECURSIVE Sorted(_, _)
Sorted(S, n) == IF n = 0 THEN << >> ELSE
                Sorted(S, n - 1) \o (IF n - 1 \in S THEN << n - 1 >> ELSE << >>)
Others(n, idx) == Sorted((0..(n - 1)) \ SetOf(idx), n)

(* -------------------------------- datasets --------------------------------- *)
Names(ds) == DOMAIN ds.vars
Dims(ds) == UNION { SetOf(ds.vars[v].dims) : v \in Names(ds) }
SizeOf(ds, d) == LET v == CHOOSE v \in Names(ds) : Has(ds.vars[v], d)
                 IN ds.vars[v].shape[Axis(ds.vars[v].dims, d)]
Shaped(v) == Len(v.dims) = Len(v.shape)
Agree(v, w) == \A j \in 1..Len(v.dims), k \in 1..Len(w.dims) :
                 v.dims[j] = w.dims[k] => v.shape[j] = w.shape[k]
Consistent(vs) == /\ \A v \in DOMAIN vs : Shaped(vs[v])
                  /\ \A v, w \in DOMAIN vs : Agree(vs[v], vs[w])
Along(v, d, idx) ==
  IF Has(v, d) THEN LET ax == Axis(v.dims, d) IN
    [ v EXCEPT !.shape = [ @ EXCEPT ![ax] = Len(idx) ],
               !.cells = Take(v.shape, v.cells, ax, idx) ]
  ELSE v
RECURSIVE AlongAll(_, _, _)
AlongAll(v, todo, idx) == IF todo = {} THEN v ELSE
  LET d == CHOOSE d \in todo : TRUE IN AlongAll(Along(v, d, idx[d]), todo \ {d}, idx)
Glue(v, w, d) == LET ax == Axis(v.dims, d) IN
  [ v EXCEPT !.shape = [ @ EXCEPT ![ax] = @ + w.shape[ax] ],
             !.cells = Join(v.shape, v.cells, w.shape, w.cells, ax) ]
Gluable(v, w, d) == /\ v.dims = w.dims
                    /\ \A k \in 1..Len(v.dims) : v.dims[k] = d \/ v.shape[k] = w.shape[k]
RECURSIVE GlueAll(_, _, _, _)
GlueAll(v, name, rest, d) ==
  IF rest = << >> \/ ~Has(v, d) THEN v
  ELSE GlueAll(Glue(v, Head(rest).vars[name], d), name, Tail(rest), d)
Keep(f, S) == [ k \in DOMAIN f \cap S |-> f[k] ]
Over(f, g) == [ k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k] ]

Isel(ds, slices) == [ ds EXCEPT !.vars = [ v \in Names(ds) |->
   AlongAll(ds.vars[v], { d \in DOMAIN slices : Has(ds.vars[v], d) },
            [ d \in DOMAIN slices |-> Idx(SizeOf(ds, d), slices[d]) ]) ] ]
Delete(ds, s, d) == [ ds EXCEPT !.vars = [ v \in Names(ds) |->
   Along(ds.vars[v], d, Others(SizeOf(ds, d), Idx(SizeOf(ds, d), s))) ] ]
Concat(ds, rest, d) == [ ds EXCEPT !.vars = [ v \in Names(ds) |->
                                                GlueAll(ds.vars[v], v, rest, d) ] ]
Merge(ds, other) == [ ds EXCEPT !.vars = Over(@, other.vars), !.attrs = Over(@, other.attrs),
                                !.stale = @ \cup other.stale ]
Select(ds, names) == [ ds EXCEPT !.vars = Keep(@, names) ]
Drop(ds, names) == [ ds EXCEPT !.vars = Keep(@, Names(ds) \ names),
                               !.stale = @ \cup (Dims(ds) \ Dims(Select(ds, Names(ds) \ names))) ]
ByDims(ds, dims, pred) == Select(ds, { v \in Names(ds) :
   (IF dims = {} THEN ds.vars[v].dims = << >>
    ELSE SetOf(ds.vars[v].dims) \cap dims # {}) = pred })
(* The pairs of a renaming are applied in order.                                *)
RECURSIVE Renamable(_, _)
Renamable(names, pairs) == pairs = << >> \/
  (/\ pairs[1][1] \in names /\ pairs[1][2] \notin names
   /\ Renamable((names \ {pairs[1][1]}) \cup {pairs[1][2]}, Tail(pairs)))
RECURSIVE Rename(_, _)
Rename(vs, pairs) == IF pairs = << >> THEN vs ELSE
  LET old == pairs[1][1]  new == pairs[1][2]  IN
  Rename([ k \in (DOMAIN vs \ {old}) \cup {new} |-> IF k = new THEN vs[old] ELSE vs[k] ],
         Tail(pairs))
Add(ds, name, v) == [ ds EXCEPT !.vars = Over(@, (name :> v)) ]
SetValues(ds, name, cells) == [ ds EXCEPT !.vars = [ @ EXCEPT ![name].cells = cells ] ]
Blank(ds, v) == [ v EXCEPT !.shape = [ k \in 1..Len(v.dims) |-> SizeOf(ds, v.dims[k]) ],
                           !.cells = [ k \in 1..Prod([ j \in 1..Len(v.dims) |-> SizeOf(ds, v.dims[j]) ])
                                         |-> v.fill ] ]
================================================================================
