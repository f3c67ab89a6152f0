-------------------------- MODULE JudgeCollection ----------------------------
(* Judges recorded histories of a collection.  One history per initial state;  *)
(* a step is accepted when its outcome, its result and the data stored after   *)
(* it are those of the specification.                                          *)
EXTENDS ZCollection, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, st, cp, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Start(c) == [ vars |-> c.vars, fixed |-> Rng(c.fixed), axis |-> c.axis, ident |-> c.ident,
              imm |-> c.imm, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
None == [ none |-> TRUE ]

(* stored data, declaration in memory and on disk *)
DiskIs(o, x) ==
  T("stored", [ k \in DOMAIN FromPairs(o.disk) |-> IF k \in x.damaged THEN <<>> ELSE FromPairs(o.disk)[k] ]
              = [ k \in DOMAIN x.parts |-> IF k \in x.damaged THEN <<>> ELSE x.parts[k] ])
  \cup T("listing", o.keys = Keys(x))
  \cup T("declared", Rng(o.declared) = DOMAIN x.vars \cup DOMAIN x.imm)
  \cup T("declared_on_disk", Rng(o.declared_disk) = DOMAIN x.vars \cup DOMAIN x.imm)
  \cup T("immutable_stored", (DOMAIN x.imm # {} /\ x.immset) => o.imm = x.imm)
Ok(o) == o.res = "ok"
Refused(o) == o.res = "error"

MapIs(o, e) ==
  T("results", Len(o.results) = Len(e))
  \cup (IF Len(o.results) # Len(e) THEN {} ELSE
     T("order", \A p \in 1..Len(e) : o.results[p].key = e[p].key)
     \cup T("data", \A p \in 1..Len(e) : o.results[p].cols = e[p].cols)
     \cup T("immutables", \A p \in 1..Len(e) : o.results[p].imm = e[p].imm)
     \cup T("own_rows", \A p \in 1..Len(e) : o.results[p].info = <<>> \/
              o.results[p].info = <<e[p].start, e[p].stop>>))

(* the calls received by the function of an update *)
CallsIs(x, o, u, keys) ==
  LET chosen == IF u.chosen = <<>> THEN <<>> ELSE IF u.depth = 0 THEN u.chosen
                ELSE <<u.chosen[1] \o SelectSeq(u.targets, LAMBDA v : v \notin Rng(u.chosen[1]))>>
      call(e) == <<e.cols[x.ident], IF u.info THEN e.start ELSE -1, IF u.info THEN e.stop ELSE -1,
                   DOMAIN e.cols \cup DOMAIN e.imm>>
      want(p) == LET e == Seen(x, keys, p, u.depth, chosen)
                 IN call(e)
      got == [ j \in 1..Len(o.calls) |->
                 <<o.calls[j][1], o.calls[j][2], o.calls[j][3], Rng(o.calls[j][4])>> ]
      (* the inference of the variables calls the function on the first partition alone *)
      extra == IF u.inferred /\ Len(keys) > 0
               THEN LET e == Seen(x, keys, 1, 0, u.chosen)
                    IN <<call(e)>> ELSE <<>>
      all == [ p \in 1..Len(keys) |-> want(p) ] \o extra
  IN T("number_of_calls", Len(got) = Len(all))
     \cup T("calls", \A w \in Rng(all) :
              Cardinality({ j \in 1..Len(got) : got[j] = w })
                 = Cardinality({ j \in 1..Len(all) : all[j] = w }))
     \cup T("immutables", \A j \in 1..Len(o.calls) : o.calls[j][5] = LoadImm(x, u.chosen))

Result(x, o) ==
  CASE o.op = "insert" ->
         IF ~InsertAsked(x, o.ds, o.validate, o.npartitions) THEN [ st |-> x, bad |-> T("not_refused", Refused(o)) ]
         ELSE LET y == Insert(x, o.ds, o.merge) IN
              [ st |-> y, bad |-> T("outcome", Ok(o)) \cup T("returned", ~Ok(o) \/ o.ret = Inserted(o.ds)) ]
    [] o.op = "drop" -> [ st |-> Drop(x, o.filter),
         bad |-> T("outcome", Ok(o)) \cup T("returned", o.ret = Selected(x, o.filter)) ]
    [] o.op = "records" -> [ st |-> x,
         bad |-> T("outcome", Ok(o)) \cup T("returned", o.ret = Keys(x))
           \cup T("variables", Rng(o.props) = Wanted(DOMAIN x.vars \cup DOMAIN x.imm, o.chosen)) ]
    [] o.op = "list" -> [ st |-> x,
         bad |-> T("outcome", Ok(o)) \cup T("returned", o.ret = Selected(x, o.filter)) ]
    [] o.op = "load" ->
         LET keys == Selected(x, o.filter) IN
         IF \E k \in Rng(keys) : k \in x.damaged THEN [ st |-> x, bad |-> {} ] ELSE [ st |-> x,
         bad |-> T("outcome", o.res = IF keys = <<>> THEN "none" ELSE "ok")
           \cup (IF ~Ok(o) \/ keys = <<>> THEN {} ELSE
                 T("loaded", o.cols = Load(x, keys, o.chosen))
                 \cup T("immutables", o.immcols = LoadImm(x, o.chosen))) ]
    [] o.op = "iload" ->
         LET keys == Indexed(x, o.filter, o.index) IN [ st |-> x,
         bad |-> T("outcome", o.res = IF keys = <<>> THEN "none" ELSE "ok")
           \cup (IF ~Ok(o) \/ keys = <<>> THEN {} ELSE
                 T("loaded", o.cols = LoadSlices(x, keys, o.index, o.chosen))
                 \cup T("immutables", o.immcols = LoadImm(x, o.chosen))) ]
    [] o.op = "updsum" ->
         LET keys == Selected(x, o.filter)
             before == SumUpdate(x, x, keys, 1, o.depth, o.name, FALSE)
             inturn == SumUpdate(x, x, keys, 1, o.depth, o.name, TRUE)
             stored == FromPairs(o.obs.disk)
         IN [ st |-> IF stored = inturn.parts THEN inturn ELSE before,
              bad |-> T("outcome", Ok(o))
                      \cup T("neighbours_already_updated", stored # inturn.parts \/ inturn.parts = before.parts) ]
    [] o.op = "addset" ->
         [ st |-> LET y == AddVariable(x, o.var) IN Update(y, Keys(y), o.u),
           bad |-> T("outcome", Ok(o)) ]
    [] o.op = "map" ->
         LET keys == Selected(x, o.filter) IN [ st |-> x,
         bad |-> T("outcome", Ok(o)) \cup (IF Ok(o) THEN MapIs(o, Map(x, keys, o.depth, o.chosen)) ELSE {}) ]
    [] o.op = "update" ->
         LET keys == Selected(x, o.filter) IN
         IF ~UpdateOk(x, o.u) /\ ~(o.u.inferred /\ keys = <<>>)
         THEN [ st |-> x, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ st |-> IF keys = <<>> THEN x ELSE Update(x, keys, o.u),
                bad |-> T("outcome", Ok(o)) \cup CallsIs(x, o, o.u, keys)
                        \cup T("arguments", o.args_unchanged) ]
    [] o.op = "addvar" ->
         IF ~AddOk(x, o.var) THEN [ st |-> x, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ st |-> AddVariable(x, o.var), bad |-> T("outcome", Ok(o)) ]
    [] o.op = "dropvar" ->
         IF ~DropVarOk(x, o.name) THEN [ st |-> x, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ st |-> DropVariable(x, o.name), bad |-> T("outcome", Ok(o)) ]
    [] o.op = "reopen" -> [ st |-> x, bad |-> T("outcome", Ok(o)) \cup T("same_declaration", o.same) ]
    [] o.op = "damage" -> 
         (* the environment alters files: unreadable, or readable with other values *)
         [ st |-> [ x EXCEPT !.damaged = Rng(o.unreadable),
              !.parts = [ k \in DOMAIN x.parts |->
                 IF k \in Rng(o.which) /\ k \notin Rng(o.unreadable)
                 THEN FromPairs(o.values)[k] ELSE x.parts[k] ] ], bad |-> {} ]
    [] o.op = "validate" -> [ st |-> IF o.fix THEN Repair(x, o.filter) ELSE x,
         bad |-> T("outcome", Ok(o))
                 \cup T("reported", Rng(o.ret) = Rng(Invalid(x, o.filter)))
                 \cup T("reported_once", Len(o.ret) = Cardinality(Rng(o.ret)))
                 \cup T("untouched", o.untouched) ]

(* A copy lives next to the original: a step may address either. *)
Step(x, y, o) ==
  IF o.op = "copy" THEN [ st |-> x, cp |-> CopyOf(x, o.filter),
        bad |-> T("outcome", Ok(o)) \cup T("source_unchanged", o.untouched) \cup T("same_declaration", o.same) ]
  ELSE IF o.on = "copy" THEN LET r == Result(y, o) IN [ st |-> x, cp |-> r.st, bad |-> r.bad ]
  ELSE LET r == Result(x, o) IN [ st |-> r.st, cp |-> y, bad |-> r.bad ]

Init == i \in 1..Len(Cases) /\ s = 0 /\ st = Start(Cases[i]) /\ cp = None /\ bad = {}
Next == /\ bad = {} /\ s < Len(Cases[i].steps)
        /\ LET o == Cases[i].steps[s + 1]
               r == Step(st, cp, o)
           IN /\ st' = r.st /\ cp' = r.cp
              /\ bad' = r.bad \cup DiskIs(o.obs, r.st) \cup T("schema", SchemaOk(r.st))
                 \cup (IF r.cp = None THEN {} ELSE
                       { "copy_" \o b : b \in DiskIs(o.obscopy, r.cp) })
        /\ s' = s + 1 /\ i' = i
Inv == bad = {}
=============================================================================
