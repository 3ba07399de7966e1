------------------------------ MODULE InputTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded requests (C18): refused, with an exception, no  *)
(* result and nothing changed, exactly when Accepts says so.               *)
(***************************************************************************)
EXTENDS Inputs, Names, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(Trace) /\ l = 0
Check(c, what) == IF c THEN {} ELSE {what}

Request(e) == IF e.k = "names"
              THEN [k |-> "names", known |-> [i \in 1..Len(e.names) |->
                                                Parse(e.names[i]) # Unknown]]
              ELSE e
Grown(e) == e.result[1] - e.size
Result(e) ==
  CASE e.k = "evaluate" -> e.result = <<e.n[1], e.n[1], e.n[1]>> /\
                           e.asked = e.n[1]
    [] e.k = "series" -> e.result = <<e.n[1]>>
    [] e.k = "mods" -> e.result = <<e.held, e.n[1], e.held, e.n[1]>>
    [] e.k = "map" -> e.result = <<e.n[2], e.held>>
    [] e.k = "harmonic" -> e.result = <<e.n[2]>>
    [] e.k \in {"cart", "lgp"} -> Grown(e) \in {0, 1} /\
                                  e.same = (Grown(e) = 0)
    [] e.k = "mesh" -> e.result = <<e.n[1], Len(e.tri) \div 3>>
    [] e.k = "codes" -> e.result = <<1>>
    [] e.k = "names" -> Len(e.result) = 1
Bad(e) ==
  IF e.op # "request" THEN {e.op}
  ELSE IF Accepts(Request(e))
  THEN Check(e.raised = "", "refused") \cup
       (IF e.raised = ""
        THEN Check(Result(e), "result") \cup
             Check(e.k \in {"cart", "lgp", "names"} \/ e.same, "changed")
        ELSE {})
  ELSE Check(e.raised # "", "accepted") \cup
       Check(e.raised # "unknown", "not an exception") \cup
       Check(e.result = <<>> /\ e.asked = 0, "a result all the same") \cup
       Check(e.same \/ (e.k = "names" /\ Len(e.names) > 1), "changed")
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
  /\ l' = l + 1
  /\ s' = s
=============================================================================
