------------------------------ MODULE JudgeLock ------------------------------
(* Judges recorded locking.  "events": operations of one process, with the     *)
(* acquisitions (A), releases (R) of the two locks and the modifications (W)   *)
(* of the files they protect; the abstraction of each history is a behaviour   *)
(* of Transaction in which the only other writer never enters.                 *)
(* "processes": final content of the partitions after concurrent insertions.   *)
(* "query": answers of is_locked.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, s, bad
T(name, ok) == IF ok THEN {} ELSE {name}
Rng(q) == { q[j] : j \in 1..Len(q) }

(************************ events of one process ******************************)
RECURSIVE Walk(_, _, _)
Walk(q, held, found) ==
  IF q = <<>> THEN [ held |-> held, bad |-> found ] ELSE
  LET e == q[1] IN
  Walk(Tail(q),
       CASE e[1] = "A" -> held \cup {e[2]} [] e[1] = "R" -> held \ {e[2]} [] OTHER -> held,
       found \cup (CASE e[1] = "A" -> T("taken_twice", e[2] \notin held)
                     [] e[1] = "R" -> T("released_twice", e[2] \in held)
                     [] e[1] = "W" -> T("write_without_lock", e[2] \in held)
                     [] e[1] = "stuck" -> {"deadlock"}))
OpBad(o) == LET w == Walk(o.events, {}, {}) IN
  w.bad \cup T("not_released", w.held = {})
  \cup T("write_after_the_end", o.late = 0)
  \cup T("is_locked", o.locked_after = FALSE /\ o.unlocked_writes = 0)

(********************** concurrent insertions ********************************)
(* c.initial, c.final: key -> identifiers stored; c.writers[j]: key ->         *)
(* identifiers inserted by the j-th insertion; c.outcome[j].                   *)
FromPairs(q) == [ k \in { q[j][1] : j \in 1..Len(q) } |->
                    q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2] ]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
RECURSIVE Explained(_, _, _)
(* rest: what remains to be explained; todo: the blocks that must be used, and *)
(* those that may be (killed writers).                                         *)
Explained(rest, must, may) ==
  IF rest = <<>> THEN must = {}
  ELSE \E b \in must \cup may :
         /\ Len(b) <= Len(rest) /\ SubSeq(rest, 1, Len(b)) = b
         /\ Explained(SubSeq(rest, Len(b) + 1, Len(rest)), must \ {b}, may \ {b})
KeyOk(c, k) ==
  LET block(j) == Get(FromPairs(c.writers[j]), k)
      must == { block(j) : j \in { j \in 1..Len(c.writers) : c.outcome[j] = "ok" } } \ {<<>>}
      may == { block(j) : j \in { j \in 1..Len(c.writers) : c.outcome[j] # "ok" } } \ {<<>>}
      old == Get(FromPairs(c.initial), k)
      new == Get(FromPairs(c.final), k)
  IN \/ new = <<>> /\ may # {}   (* a killed writer was replacing it: see C06 *)
     \/ /\ Len(new) >= Len(old) /\ SubSeq(new, 1, Len(old)) = old
        /\ Explained(SubSeq(new, Len(old) + 1, Len(new)), must, may)
ProcBad(c) ==
  T("writer_failed", \A j \in 1..Len(c.writers) : c.outcome[j] \in {"ok", "killed"})
  \cup T("not_sequential", \A k \in Rng(c.keys) : KeyOk(c, k))
  \cup T("unknown_partitions", DOMAIN FromPairs(c.final) \subseteq Rng(c.keys))
  \cup T("locked_at_the_end", ~c.locked)

(* c.script: <<action, process>>, only actions that do not block; c.answers:   *)
(* the answers to the queries, in order.                                       *)
RECURSIVE Ask(_, _, _)
Ask(q, holder, answers) ==
  IF q = <<>> THEN answers = <<>> ELSE
  CASE q[1][1] = "acquire" -> Ask(Tail(q), q[1][2], answers)
    [] q[1][1] \in {"release", "die"} -> Ask(Tail(q), "nobody", answers)
    [] q[1][1] = "query" -> /\ answers # <<>> /\ answers[1] = (holder # "nobody")
                            /\ Ask(Tail(q), holder, Tail(answers))
QueryBad(c) == T("is_locked", Ask(c.script, "nobody", c.answers))

Judge(c) == CASE c.kind = "events" -> UNION { OpBad(c.ops[j]) : j \in 1..Len(c.ops) }
              [] c.kind = "processes" -> ProcBad(c)
              [] c.kind = "query" -> QueryBad(c)
Init == i \in 1..Len(Cases) /\ s = 1 /\ bad = Judge(Cases[i])
Next == FALSE /\ UNCHANGED <<i, s, bad>>
Inv == bad = {}
=============================================================================
