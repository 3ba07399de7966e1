------------------------------ MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded configuration loads (C21).                      *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(Trace) /\ l = 0
Check(c, what) == IF c THEN {} ELSE {what}
Sections(e) == [i \in 1..Len(e.sections) |->
                  [name |-> e.sections[i].name, kind |-> e.sections[i].kind,
                   extra |-> e.sections[i].extra,
                   fields |-> e.sections[i].fields,
                   patterns |-> e.sections[i].patterns,
                   env |-> e.env, files |-> e.files]]
Bad(e) ==
  IF e.op # "load" THEN {e.op}
  ELSE IF ConfigOk(Sections(e))
  THEN Check(e.raised = "", "refused") \cup
       Check(e.raised # "" \/ Built(Sections(e), e.models), "another model")
  ELSE Check(e.raised # "" /\ e.models = <<>>, "accepted")
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
  /\ l' = l + 1
  /\ s' = s
=============================================================================
