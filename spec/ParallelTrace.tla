---------------------------- MODULE ParallelTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded calls that share out work (C15): each event is  *)
(* a step that Parallel allows.                                            *)
(***************************************************************************)
EXTENDS Parallel, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<size, fails, busy, done, lost, out, s, l>>

Init == s \in 1..Len(Trace) /\ l = 0 /\ Idle
Set(q) == {q[i] : i \in 1..Len(q)}
Check(c, what) == IF c THEN {} ELSE {what}
May(e) ==
  CASE e.op = "start" -> MayStart
    [] e.op = "call" -> MayCall
    [] e.op = "left" -> MayLeave
    [] e.op = "item" -> MayItem(e.i)
    [] e.op = "fail" -> MayFail(e.i)
    [] e.op = "returned" -> MayReturn
    [] e.op = "raised" -> MayRaise(e.i)
    [] OTHER -> FALSE
Do(e) ==
  CASE e.op = "start" -> Start(e.size, Set(e.fails))
    [] e.op = "call" -> Call
    [] e.op = "left" -> Leave
    [] e.op = "item" -> Item(e.i)
    [] e.op = "fail" -> Fail(e.i)
    [] e.op = "returned" -> Return
    [] e.op = "raised" -> Raise(e.i)
\* Events that only tell results
Bad(e) ==
  CASE e.op = "many" ->
         Check(e.late = 0, "not finished") \cup
         Check(e.least = 1 /\ e.most = 1, "once each")
    [] e.op = "map" ->
         Check(Len(e.points) = e.size /\
               \A i \in 1..e.size : e.points[i] = 1000 * i, "once each")
    [] e.op = "results" ->
         Check(out \in {"returned", "raised"}, "over") \cup
         Check(IF out = "returned"
               THEN Len(e.q) = size /\ \A i \in 1..size : e.q[i] = 2
               ELSE e.q = <<>>, "results")
    [] OTHER -> Check(May(e), e.op)
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ IF e.op \notin {"many", "map", "results"} /\ bad = {} THEN Do(e)
           ELSE UNCHANGED pvars
  /\ l' = l + 1
  /\ s' = s
=============================================================================
