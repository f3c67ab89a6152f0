------------------------------ MODULE JudgeFail -------------------------------
(* Judges recorded operations of a collection during which one operation on    *)
(* the files fails: addition or removal of a variable, update.                 *)
EXTENDS ZCollection, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Start(c) == [ vars |-> c.vars, fixed |-> Rng(c.fixed), axis |-> c.axis, ident |-> c.ident,
              imm |-> c.imm, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
Apply(x, o) == CASE o.op = "insert" -> Insert(x, o.ds, o.merge)
                 [] o.op = "addvar" -> AddVariable(x, o.var)
                 [] o.op = "dropvar" -> DropVariable(x, o.name)
                 [] o.op = "update" -> Update(x, Selected(x, o.filter), o.u)
RECURSIVE After(_, _)
After(x, q) == IF q = <<>> THEN x ELSE After(Apply(x, q[1]), Tail(q))
Declared(x) == DOMAIN x.vars \cup DOMAIN x.imm

(* The state must be x (before), seen through the variables not concerned. *)
Unchanged(x, r, names) ==
  T("listing", r.keys = Keys(x))
  \cup T("declared", Rng(r.declared) = Declared(x))
  \cup T("declared_on_disk", Rng(r.declared_disk) = Declared(x))
  \cup T("unreadable", r.broken = <<>>)
  \cup (IF r.broken # <<>> \/ r.keys # Keys(x) THEN {} ELSE
        T("data_changed", \A k \in DOMAIN x.parts :
            Same(FromPairs(r.parts)[k], Only(x.parts[k], names)))
        \cup T("immutables", x.parts = <<>> \/ Same(r.imm, x.imm)))
Is(f, y) ==
  T("stored", Same(FromPairs(f.disk), y.parts))
  \cup T("final_listing", f.keys = Keys(y))
  \cup T("final_declared", Rng(f.declared) = Declared(y))
  \cup T("final_declared_on_disk", Rng(f.declared_disk) = Declared(y))

Judge(c) ==
  LET x == After(Start(c), c.steps)
      y == Apply(x, c.step)
      r == c.run
      gone == CASE c.step.op = "dropvar" -> {c.step.name}
                [] c.step.op = "update" -> Rng(c.step.u.targets)
                [] OTHER -> {}
  IN IF ~r.reopened THEN {"not_reopened"} ELSE
     IF r.first = "ok"
     THEN (* the failing operation did not matter: the result is the normal one *)
          T("final_state", r.final_ok) \cup (IF r.final_ok THEN T("stored",
             \A k \in DOMAIN y.parts : k \in DOMAIN FromPairs(r.final.disk)
                /\ Same(FromPairs(r.final.disk)[k], y.parts[k])) \cup
             T("final_declared_on_disk", Rng(r.final.declared_disk) = Declared(y)) ELSE {})
     ELSE Unchanged(x, r, DOMAIN x.vars \ gone)
          \cup T("after_repeat", r.again = "ok")
          \cup (IF r.again # "ok" THEN {} ELSE
                T("final_state", r.final_ok) \cup (IF r.final_ok THEN Is(r.final, y) ELSE {}))
Init == i \in 1..Len(Cases) /\ s = 1 /\ bad = Judge(Cases[i])
Next == FALSE /\ UNCHANGED <<i, s, bad>>
Inv == bad = {}
=============================================================================
