----------------------------- MODULE JudgeCrash ------------------------------
(* Judges recorded interruptions of an operation.  The state before it is that *)
(* of the history `steps`, the operation is `step`; a record holds one         *)
(* interruption: what is seen of the collection afterwards, and what the       *)
(* repetition of the operation, or the repair of the collection, gives.        *)
(* What may be seen of each partition is given by the operators AfterCrash and *)
(* AfterFailure of CrashInsert, which are model checked there.                 *)
EXTENDS ZCollection, Json, IOUtils
CI == INSTANCE CrashInsert WITH Parts <- {}, Existing <- {}, Target <- {}, MaxStops <- 0,
        dir <- 0, tmp <- 0, bak <- 0, pc <- 0, status <- 0, stops <- 0, broken <- 0, crashed <- 0
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Start(c) == [ vars |-> c.vars, fixed |-> Rng(c.fixed), axis |-> c.axis, ident |-> c.ident,
              imm |-> c.imm, immset |-> FALSE, parts |-> <<>>, damaged |-> {} ]
RECURSIVE After(_, _)
After(x, q) == IF q = <<>> THEN x ELSE After(Insert(x, q[1].ds, q[1].merge), Tail(q))

Judge(c) ==
  LET x == After(Start(c), c.steps)
      y == Insert(x, c.step.ds, c.step.merge)
      r == c.run
      o == r.obs
      crash == r.mode = "crash"
      shown == FromPairs(o.parts)
      broken == Rng(o.broken)
      had(k) == k \in DOMAIN x.parts
      looks(k) == (IF k \in broken THEN {"broken"} ELSE {})
                  \cup (IF k \notin Rng(o.keys) THEN {"absent"} ELSE {})
                  \cup (IF k \in DOMAIN shown /\ had(k) /\ shown[k] = x.parts[k] THEN {"old"} ELSE {})
                  \cup (IF k \in DOMAIN shown /\ shown[k] = y.parts[k] THEN {"new"} ELSE {})
      allowed(k) == IF crash THEN CI!AfterCrash(had(k)) ELSE CI!AfterFailure(had(k))
      (* between the two renamings of the replacement of a partition *)
      window == { k \in DOMAIN x.parts : /\ crash /\ k \notin Rng(o.keys)
                    /\ x.parts[k] \in Rng(o.hidden)
                    /\ y.parts[k] \in Rng(o.hidden) }
      wrong == { k \in DOMAIN y.parts \ window : looks(k) \cap allowed(k) = {} }
      visible == [ k \in DOMAIN shown \cup (IF r.after = "repeat" THEN window ELSE {}) |->
                     IF k \in DOMAIN shown THEN shown[k] ELSE x.parts[k] ]
      z == [ x EXCEPT !.parts = visible, !.imm = y.imm, !.immset = TRUE ]
      f == IF r.after # "repeat" THEN z ELSE
           IF o.dropped = <<>> THEN Insert(z, c.step.ds, c.step.merge) ELSE
           Insert(DropVariable(z, o.dropped[1]),
                  [ c.step.ds EXCEPT !.cols = Only(c.step.ds.cols,
                      DOMAIN c.step.ds.cols \ {o.dropped[1]}) ], c.step.merge)
      e == o.final
  IN IF ~r.opened THEN {"not_opened"} ELSE
     T("lost_or_corrupted", wrong = {})
     \cup T("unknown_partitions", Rng(o.keys) \subseteq DOMAIN y.parts)
     \cup T("listing", o.keys = SortedKeys(Rng(o.keys)))
     \cup T("reported_invalid", Rng(o.invalid) = broken)
     \cup T("immutables", DOMAIN shown = {} \/ Same(o.imm, y.imm))
     \cup T("swap_window", window = {})
     \cup T("not_reported", crash \/ r.first = "error"
              \/ \A k \in DOMAIN y.parts : "new" \in looks(k))
     \cup T("after_" \o r.after, o.again.res = "ok")
     \cup (IF o.again.res # "ok" \/ wrong # {} THEN {} ELSE
           T("final", e.ok) \cup T("final_listing", e.keys = Keys(f))
           \cup (IF ~e.ok THEN {} ELSE
                 IF Keys(f) = <<>> THEN T("final_empty", e.none) ELSE
                 T("final_data", ~e.none /\ Same(e.cols, Load(f, Keys(f), <<>>)))
 \cup T("final_stored", Same(FromPairs(e.stored), f.parts))
                 \cup T("final_immutables", ~e.none /\ Same(e.imm, f.imm))))

Init == i \in 1..Len(Cases) /\ s = 1 /\ bad = Judge(Cases[i])
Next == FALSE /\ UNCHANGED <<i, s, bad>>
Inv == bad = {}
=============================================================================
