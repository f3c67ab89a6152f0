---------------------------- MODULE JudgeDeclaration ----------------------------
(* Judges recorded declarations (create, add, drop, reopen; collections and     *)
(* views) and recorded conversions of partition keys.                           *)
EXTENDS Declaration, Naming, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, st, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
SameVar(a, b) == /\ a.dtype = b.dtype /\ a.dims = b.dims /\ a.fill = b.fill
                 /\ a.compressor = b.compressor /\ a.filters = b.filters
                 /\ Same(a.attrs, b.attrs)
SameVars(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : SameVar(f[n], g[n])
(* In memory, the byte order may differ; scalars are stored uncompressed.       *)
SameLoaded(a, b) == /\ a.native = b.native /\ a.dims = b.dims /\ a.filters = b.filters
                    /\ (a.dims = << >> \/ a.compressor = b.compressor)
                    /\ Same(a.attrs, b.attrs)
DeclBad(where, want, got) ==
  T(where \o "_axis", got.axis = want.axis)
  \cup T(where \o "_partitioning", got.part = want.part /\ got.keys = want.keys)
  \cup T(where \o "_dimensions", got.dims = want.dims)
  \cup T(where \o "_chunks", Same(got.chunks, want.chunks))
  \cup T(where \o "_block", got.block = want.block)
  \cup T(where \o "_attributes", Same(got.attrs, want.attrs))
  \cup T(where \o "_variables", SameVars(got.vars, want.vars))
ViewBad(where, want, got) ==
  T(where \o "_variables", SameVars(got.vars, want.vars))
  \cup T(where \o "_filter", got.filter = want.filter)
  \cup T(where \o "_reference", got.ref = TRUE)
Refused(o) == o.res = "error"
StepOf(x, o) ==   (* [st, bad]: next declaration and verdict on the result *)
  LET keep(name) == [ st |-> x, bad |-> T(name, Refused(o)) ]
      ok(y) == [ st |-> y, bad |-> T("refused", ~Refused(o)) ]
  IN CASE o.op = "add" ->
            IF AddOk(x.main, o.name, o.var)
            THEN ok([ x EXCEPT !.main = Add(x.main, o.name, o.var) ]) ELSE keep("not_refused")
       [] o.op = "drop" ->
            IF DropOk(x.main, o.name)
            THEN ok([ x EXCEPT !.main = Drop(x.main, o.name) ]) ELSE keep("not_refused")
       [] o.op = "vcreate" -> ok([ x EXCEPT !.view = [ on |-> TRUE, vars |-> << >>,
                                                       filter |-> o.filter ] ])
       [] o.op = "vfilter" -> ok([ x EXCEPT !.view.filter = o.filter ])
       [] o.op = "vadd" ->
            IF ViewAddOk(x.main, x.view, o.name, o.var)
            THEN ok([ x EXCEPT !.view = ViewAdd(x.view, o.name, o.var) ]) ELSE keep("not_refused")
       [] o.op = "vdrop" ->
            IF ViewDropOk(x.view, o.name)
            THEN ok([ x EXCEPT !.view = ViewDrop(x.view, o.name) ]) ELSE keep("not_refused")
       (* creating over what exists, opening what does not exist *)
       [] o.op = "refused" -> keep("not_refused")
       [] o.op \in {"create", "reopen", "insert", "copy"} -> ok(x)
ObsBad(x, o) ==
  DeclBad("handle", x.main, o.now) \cup DeclBad("reopened", x.main, o.disk)
  \cup T("equality", o.equal)
  \cup T("listed_variables", SameVars(o.listed, x.main.vars))
  \cup (IF "loaded" \in DOMAIN o
        THEN T("loaded_variables", /\ DOMAIN o.loaded.vars = DOMAIN x.main.vars
                                   /\ \A n \in DOMAIN x.main.vars :
                                        SameLoaded(o.loaded.vars[n], x.main.vars[n]))
             \cup T("loaded_attributes", Same(o.loaded.attrs, x.main.attrs)) ELSE {})
  \cup (IF "vloaded" \in DOMAIN o
        THEN T("view_loaded", /\ DOMAIN o.vloaded.vars \subseteq DOMAIN x.main.vars \cup DOMAIN x.view.vars
                              /\ DOMAIN x.view.vars \subseteq DOMAIN o.vloaded.vars
                              /\ \A n \in DOMAIN o.vloaded.vars :
                                   SameLoaded(o.vloaded.vars[n],
                                           IF n \in DOMAIN x.view.vars THEN x.view.vars[n]
                                           ELSE x.main.vars[n]))
        ELSE {})
  \cup (IF o.op = "copy" /\ ~Refused(o) THEN DeclBad("copy", x.main, o.copied) ELSE {})
  \cup (IF x.view.on THEN ViewBad("view", x.view, o.view) \cup ViewBad("view_reopened", x.view, o.vdisk)
        ELSE {})

KeyBad(c) ==
  LET o == c.obs
      want == IF c.scheme = "date" THEN DateName(UnitsOf(Len(c.key)), c.key, "/")
              ELSE SeqName(c.names, c.key, "/")
      names == IF c.scheme = "date" THEN UnitsOf(Len(c.key)) ELSE c.names
  IN IF "error" \in DOMAIN o THEN {"error"} ELSE
     T("harness_date", c.scheme # "date" \/ ValidDate(c.key))
     \cup T("name", o.name = want)
     \cup T("parse", o.parsed = c.key /\ o.fields = names)
     \cup T("parse_path", o.parsed_path = c.key)
     \cup T("foreign_path", o.foreign = TRUE)
     \cup T("encode", o.encoded = (IF c.scheme = "date" THEN DateEncode(c.key) ELSE c.key))
     \cup T("decode", o.decoded = c.key)
     \cup T("decode_inner", o.decoded_inner = c.key)
     \cup T("dtype", o.dtype_names = names /\ o.dtypes = c.dtypes)
     \cup T("split", o.split = want)
     \cup T("again", o.again = <<want, want>> /\ o.again_dtypes = c.dtypes)

Start(c) == [ main |-> IF c.kind = "decl" THEN c.decl ELSE << >>,
              view |-> [ on |-> FALSE, vars |-> << >>, filter |-> "" ] ]
Init == /\ i \in 1..Len(Cases) /\ s = 0 /\ st = Start(Cases[i])
        /\ bad = IF Cases[i].kind = "key" THEN KeyBad(Cases[i]) ELSE {}
Next == /\ bad = {} /\ Cases[i].kind = "decl" /\ s < Len(Cases[i].steps)
        /\ LET o == Cases[i].steps[s + 1]
               r == StepOf(st, o)
           IN /\ st' = r.st
              /\ bad' = IF r.bad # {} THEN r.bad ELSE ObsBad(r.st, o)
        /\ s' = s + 1 /\ i' = i
Inv == bad = {}
================================================================================
