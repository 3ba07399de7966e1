------------------------------- MODULE LeapTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded leap second lookups (C20).  `file` is the table *)
(* stored on disk, `memo` the tables that the process may hold.            *)
(***************************************************************************)
EXTENDS Leap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, file, memo, net
NoNet == [mode |-> "down", expired |-> FALSE, table |-> <<>>]
Init == s \in 1..Len(Trace) /\ l = 0 /\ file = Absent /\ memo = {} /\
        net = NoNet
Check(c, what) == IF c THEN {} ELSE {what}

Held == {[ok |-> TRUE, table |-> t, file |-> file] : t \in memo}
\* Dates may be refused before any table is looked for.
Possible(e) == Held \cup Uses(file, net) \cup
               (IF TooEarly(e.dates) THEN {Failed(file)} ELSE {})
\* What became of the file, as observed
Fits(e, u) == \/ e.file = "same" /\ u.file = file
              \/ e.file = "net" /\ u.file = Stored(net)
Answers(e, u) == u.ok /\ e.raised = "" /\ e.result = Counts(u.table, e.dates)
Matching(e) == {u \in Possible(e) : Fits(e, u) /\
                IF TooEarly(e.dates) THEN e.raised # "" /\ e.result = <<>>
                ELSE IF e.raised = "" THEN Answers(e, u) ELSE ~u.ok}
Why(e) ==
  Check(\E u \in Possible(e) : Fits(e, u), "the stored table was damaged") \cup
  Check(~TooEarly(e.dates) \/ e.raised # "", "a date before 1972 accepted") \cup
  Check(TooEarly(e.dates) \/ e.raised = "", "refused") \cup
  Check(TooEarly(e.dates) \/ e.raised # "", "wrong count")
Bad(e) ==
  CASE e.op \in {"start", "net", "restart"} -> {}
    [] e.op = "shipped" ->
         Check(Len(e.table) >= Len(Official) /\
               SubSeq(e.table, 1, Len(Official)) = Official /\
               \A i \in 2..Len(e.table) : Before(e.table[i - 1], e.table[i]),
               "not the official table")
    \* a process ended at some step: the old table or the new one is there
    [] e.op = "crash" ->
         Check(e.file = "same" \/ (e.file = "net" /\ net.mode = "new"),
               "the stored table was damaged")
    [] e.op = "lookup" -> (IF Matching(e) = {} THEN Why(e) ELSE {}) \cup
                          Check(e.same, "the dates of the caller changed")
    [] OTHER -> {e.op}
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
         m == IF e.op = "lookup" THEN Matching(e) ELSE {}
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ file' = IF e.op \in {"start", "shipped"}
                   THEN [present |-> e.present, expired |-> e.expired,
                         table |-> e.table]
                   ELSE IF m # {} /\ e.file = "net" THEN Stored(net) ELSE file
        /\ net' = IF e.op = "net"
                  THEN [mode |-> e.mode, expired |-> e.expired,
                        table |-> e.table] ELSE net
        /\ memo' = IF e.op \in {"start", "shipped", "restart"} THEN {}
                   ELSE IF e.op = "lookup"
                   THEN memo \cup {u.table : u \in {x \in m : x.ok}}
                   ELSE memo
  /\ l' = l + 1
  /\ s' = s
=============================================================================
