------------------------------ MODULE JudgeDataset ------------------------------
(* Judges recorded programs over datasets held in registers.                    *)
EXTENDS DatasetAlgebra, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, regs, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Ok(v) == [out |-> "ok", value |-> v]
Refused == [out |-> "refused"]
Free == [out |-> "free"]
Given(o, delayed) ==
  [ vars |-> [ v \in DOMAIN o.vars |-> o.vars[v] ], attrs |-> o.attrs, chunks |-> o.chunks,
    block |-> o.block, delayed |-> delayed, stale |-> {} ]
Empty(ds) == \E v \in Names(ds) : Size(ds.vars[v]) = 0
SameKind(v, w) == v.dtype = w.dtype /\ v.fill = w.fill
Do(o, r) ==
  LET ds == r[o.src]
      rest == [ k \in 1..Len(o.others) |-> r[o.others[k]] ]
  IN CASE o.op = "make" ->
            (* mixing both flavours of variables is refused *)
            IF ~Consistent(o.vars) \/ o.mixed THEN Refused ELSE Ok(Given(o, o.delayed))
       [] o.op = "isel" ->
            IF \E d \in DOMAIN o.slices : d \notin Dims(ds) THEN
               (IF \E d \in DOMAIN o.slices : d \notin Dims(ds) \cup ds.stale THEN Refused ELSE Free)
            ELSE IF \E d \in DOMAIN o.slices : ~InRange(SizeOf(ds, d), o.slices[d]) THEN
               (IF Empty(ds) \/ Cardinality(DOMAIN o.slices) > 1 THEN Free (* Numpy does not look at the indices *) ELSE Refused)
            ELSE Ok(Isel(ds, o.slices))
       [] o.op = "delete" ->
            IF o.dim \notin Dims(ds) THEN (IF o.dim \in ds.stale THEN Free ELSE Refused)
            ELSE IF ~InRange(SizeOf(ds, o.dim), o.slices[o.dim]) THEN Refused
            ELSE IF ds.delayed /\ Empty(ds) THEN Free (* Dask fails *)
            ELSE Ok(Delete(ds, o.slices[o.dim], o.dim))
       [] o.op = "concat" ->
            IF rest = << >> \/ (\E k \in 1..Len(rest) : rest[k].delayed # ds.delayed
                                                        \/ ~(Names(ds) \subseteq Names(rest[k])))
            THEN Refused
            ELSE IF o.dim \notin Dims(ds) THEN Free
            ELSE IF \E k \in 1..Len(rest), v \in Names(ds) :
                      Has(ds.vars[v], o.dim) /\ ~Gluable(ds.vars[v], rest[k].vars[v], o.dim)
                 THEN (IF ds.delayed /\ \E v \in Names(ds) : Size(ds.vars[v]) = 0
                                           \/ \E k \in 1..Len(rest) : Size(rest[k].vars[v]) = 0
                       THEN Free (* Dask ignores empty arrays *) ELSE Refused)
            ELSE IF \E k \in 1..Len(rest), v \in Names(ds) : ~SameKind(ds.vars[v], rest[k].vars[v])
                 THEN Free
            ELSE Ok(Concat(ds, rest, o.dim))
       [] o.op = "merge" ->
            IF rest[1].delayed # ds.delayed \/ Names(ds) \cap Names(rest[1]) # {}
               \/ (\E d \in Dims(ds) \cap Dims(rest[1]) : SizeOf(ds, d) # SizeOf(rest[1], d))
            THEN Refused
            ELSE IF (ds.stale \cap (Dims(rest[1]) \cup rest[1].stale)) \cup
                    (rest[1].stale \cap (Dims(ds) \cup ds.stale)) # {} THEN Free
            ELSE Ok(Merge(ds, rest[1]))
       [] o.op = "rename" -> IF Renamable(Names(ds), o.pairs) THEN
                                Ok([ ds EXCEPT !.vars = Rename(@, o.pairs) ]) ELSE Refused
       [] o.op = "select" -> IF SetOf(o.names) \subseteq Names(ds) THEN Ok(Select(ds, SetOf(o.names)))
                             ELSE Refused
       [] o.op = "drop" -> IF SetOf(o.names) \subseteq Names(ds) THEN Ok(Drop(ds, SetOf(o.names)))
                           ELSE Refused
       [] o.op = "bydims" -> Ok(ByDims(ds, SetOf(o.names), o.pred))
       [] o.op = "add" ->
            IF o.name \in Names(ds) THEN Free
            ELSE IF \E d \in SetOf(o.var.dims) : d \notin Dims(ds) THEN
                 (IF \E d \in SetOf(o.var.dims) : d \notin Dims(ds) \cup ds.stale THEN Refused ELSE Free)
            ELSE IF o.blank THEN (IF o.var.fill = None THEN Free
                                  ELSE Ok(Add(ds, o.name, Blank(ds, o.var))))
            ELSE IF ~Shaped(o.var) \/ (\E k \in 1..Len(o.var.dims) :
                                         o.var.shape[k] # SizeOf(ds, o.var.dims[k])) THEN Refused
            ELSE Ok(Add(ds, o.name, o.var))
       [] o.op = "setvalues" ->
            IF o.name \notin Names(ds) \/ o.given.ndim # Len(ds.vars[o.name].dims) THEN Refused
            ELSE Ok(SetValues(ds, o.name, o.given.cells))
       [] o.op = "compute" -> Ok([ ds EXCEPT !.delayed = FALSE ])
       [] o.op \in {"persist", "rechunk", "pickle", "same"} -> Ok(ds)
       (* only the variables without fill value survive the conversion          *)
       (* unchanged; the chunk sizes are not part of it                         *)
       [] o.op = "xarray" -> IF \E v \in Names(ds) : ds.vars[v].fill # None THEN Free
                             ELSE Ok([ ds EXCEPT !.delayed = o.delayed, !.chunks = << >>, !.block = 0 ])
VarBad(want, got, blocks) ==
  T("shape", got.shape = want.shape) \cup T("dims", got.dims = want.dims)
  \cup T("values", got.cells = want.cells) \cup T("type", got.dtype = want.dtype)
  \cup T("fill", got.fill = want.fill) \cup T("attrs", Same(got.attrs, want.attrs))
  \cup T("codec", got.codec = want.codec)
  \cup T("missing", got.raw \/ { k \in 1..Len(got.missing) : got.missing[k] }
                               = Missing(want.cells, want.fill))
RegBad(want, got) ==
  IF "error" \in DOMAIN got THEN {"reading failed"} ELSE
  T("names", DOMAIN got.vars = Names(want))
  \cup T("attributes", Same(got.attrs, want.attrs)) \cup T("flavour", got.delayed = want.delayed)
  \cup T("chunks", Same(got.chunks, want.chunks)) \cup T("block", got.block = want.block)
  \cup T("dimensions", \A d \in Dims(want) : d \in DOMAIN got.dims /\ got.dims[d] = SizeOf(want, d))
  \cup T("unknown dimension", DOMAIN got.dims \subseteq Dims(want) \cup want.stale)
  \cup UNION { VarBad(want.vars[v], got.vars[v], 0) : v \in Names(want) \cap DOMAIN got.vars }
Init == /\ i \in 1..Len(Cases) /\ s = 0 /\ bad = {} /\ regs = << >>
Next == /\ bad = {} /\ s < Len(Cases[i].steps)
        /\ LET o == Cases[i].steps[s + 1]  r == Do(o, regs) IN
             IF r.out = "free" THEN s' = Len(Cases[i].steps) /\ UNCHANGED <<regs, bad>>
             ELSE /\ s' = s + 1
                  /\ regs' = IF r.out = "ok" THEN Over(regs, (o.dst :> r.value)) ELSE regs
                  /\ bad' = T("outcome " \o o.op \o " " \o r.out, o.res = r.out)
                            \cup UNION { RegBad(regs'[x], o.regs[x]) :
                                         x \in DOMAIN regs' \cap DOMAIN o.regs }
        /\ i' = i
Inv == bad = {}
================================================================================
