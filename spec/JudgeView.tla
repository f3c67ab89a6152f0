------------------------------ MODULE JudgeView ------------------------------
(* Judges recorded histories of a view and of its reference.                   *)
EXTENDS View, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, ref, vw, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Start(c) == [ vars |-> c.vars, fixed |-> Rng(c.fixed), axis |-> c.axis, ident |-> c.ident,
              imm |-> c.imm, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
NoView == [ none |-> TRUE ]
Ok(o) == o.res = "ok"
Refused(o) == o.res = "error"

RefIs(o, x) == T("reference", FromPairs(o.disk) = x.parts)
ViewIs(x, o, w) ==
  IF w = NoView THEN {} ELSE
  LET got == FromPairs(o.vdisk) vis == Visible(x, w) IN
  T("view_partitions", DOMAIN got \cap DOMAIN x.parts = vis)
  \cup (IF DOMAIN got \cap DOMAIN x.parts # vis THEN {} ELSE
        T("view_axis", \A k \in vis : got[k].axis = w.parts[k].axis)
        \cup T("view_values", \A k \in vis : Same(got[k].vals, w.parts[k].vals)))
  \cup T("view_declared", Rng(o.vdeclared) = DOMAIN w.vars)
  \cup T("view_declared_on_disk", Rng(o.vdeclared_disk) = DOMAIN w.vars)

MapIs(o, e) ==
  T("results", Len(o.results) = Len(e))
  \cup (IF Len(o.results) # Len(e) THEN {} ELSE
     T("order", \A p \in 1..Len(e) : o.results[p].key = e[p].key)
     \cup T("data", \A p \in 1..Len(e) : o.results[p].cols = e[p].cols)
     \cup T("own_rows", \A p \in 1..Len(e) : o.results[p].info = <<>> \/
              o.results[p].info = <<e[p].start, e[p].stop>>))
CallsIs(x, o, u, keys) ==
  LET call(e) == <<e.cols[x.ident], IF u.info THEN e.start ELSE -1, IF u.info THEN e.stop ELSE -1,
                   DOMAIN e.cols>>
      got == [ j \in 1..Len(o.calls) |->
                 <<o.calls[j][1], o.calls[j][2], o.calls[j][3], Rng(o.calls[j][4])>> ]
      (* the inference of the variables calls the function on the first partition alone *)
      all == [ p \in 1..Len(keys) |-> call(Seen(x, keys, p, u.depth, u.chosen)) ]
             \o <<call(Seen(x, keys, 1, 0, u.chosen))>>
  IN T("number_of_calls", Len(got) = Len(all))
     \cup T("calls", \A w \in Rng(all) :
              Cardinality({ j \in 1..Len(got) : got[j] = w })
                 = Cardinality({ j \in 1..Len(all) : all[j] = w }))

RefStep(o) == o.op \in {"insert", "drop"}
Result(x, w, o) ==
  LET same == [ ref |-> x, vw |-> w ] IN
  CASE o.op = "insert" ->
         [ ref |-> Insert(x, o.ds, o.merge), vw |-> w, bad |-> T("outcome", Ok(o)) ]
    [] o.op = "drop" -> [ ref |-> Drop(x, o.filter), vw |-> w, bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vcreate" -> [ ref |-> x, vw |-> Create(x, o.filter), bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vlist" -> [ ref |-> x, vw |-> w,
         bad |-> T("outcome", Ok(o)) \cup T("returned", o.ret = VSelected(x, w, o.filter)) ]
    [] o.op = "vadd" ->
         IF ~VAddOk(x, w, o.var) THEN [ ref |-> x, vw |-> w, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ ref |-> x, vw |-> VAdd(x, w, o.var), bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vdrop" ->
         IF ~VDropOk(w, o.name) THEN [ ref |-> x, vw |-> w, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ ref |-> x, vw |-> VDrop(w, o.name), bad |-> T("outcome", Ok(o)) ]
    [] o.op = "vload" ->
         LET keys == VSelected(x, w, o.filter) IN [ ref |-> x, vw |-> w, bad |->
         IF DOMAIN w.vars = {} THEN T("not_refused", Refused(o)) ELSE
         T("outcome", o.res = IF keys = <<>> THEN "none" ELSE "ok")
           \cup (IF ~Ok(o) \/ keys = <<>> THEN {} ELSE
                 T("loaded", o.cols = Load(Joined(x, w), keys, o.chosen))) ]
    [] o.op = "vmap" ->
         LET keys == VSelected(x, w, o.filter) IN [ ref |-> x, vw |-> w, bad |->
         IF DOMAIN w.vars = {} THEN T("not_refused", Refused(o)) ELSE
         T("outcome", Ok(o)) \cup
           (IF Ok(o) THEN MapIs(o, Map(Joined(x, w), keys, o.depth, o.chosen)) ELSE {}) ]
    [] o.op = "vupdate" ->
         LET keys == VSelected(x, w, o.filter) IN
         IF DOMAIN w.vars = {} THEN [ ref |-> x, vw |-> w, bad |-> T("not_refused", Refused(o)) ]
         ELSE IF keys = <<>> THEN [ ref |-> x, vw |-> w, bad |-> T("outcome", Ok(o)) ]
         ELSE IF ~VUpdateOk(w, o.u)
         THEN [ ref |-> x, vw |-> w, bad |-> T("not_refused", Refused(o)) ]
         ELSE [ ref |-> x, vw |-> VUpdate(x, w, keys, o.u),
                bad |-> T("outcome", Ok(o)) \cup CallsIs(Joined(x, w), o, o.u, keys) ]
    [] o.op = "vsync" -> [ ref |-> x, vw |-> Sync(x, w),
         bad |-> T("outcome", Ok(o)) \cup T("returned", o.ret = Changed(x, w)) ]
    [] o.op = "vsynced" -> [ ref |-> x, vw |-> w,
         bad |-> T("outcome", Ok(o)) \cup T("returned", ~Ok(o) \/ o.same = Synced(x, w)) ]
    [] o.op = "vreopen" -> [ ref |-> x, vw |-> w,
         bad |-> T("outcome", Ok(o)) \cup T("same_declaration", o.same) ]

Init == i \in 1..Len(Cases) /\ s = 0 /\ ref = Start(Cases[i]) /\ vw = NoView /\ bad = {}
Next == /\ bad = {} /\ s < Len(Cases[i].steps)
        /\ LET o == Cases[i].steps[s + 1]
               r == Result(ref, vw, o)
           IN /\ ref' = r.ref /\ vw' = r.vw
              /\ bad' = r.bad \cup RefIs(o.obs, r.ref) \cup ViewIs(r.ref, o.obs, r.vw)
                 \cup T("reference_touched", RefStep(o) \/ o.untouched)
                 \cup T("consistent", r.vw = NoView \/ ViewOk(r.ref, r.vw))
        /\ s' = s + 1 /\ i' = i
Inv == bad = {}
=============================================================================
