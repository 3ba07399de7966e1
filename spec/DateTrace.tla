------------------------------- MODULE DateTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded conversions of dates (C23).                     *)
(***************************************************************************)
EXTENDS Calendar, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(Trace) /\ l = 0
Check(c, what) == IF c THEN {} ELSE {what}

\* An instant in seconds, within one rounding of the sum and one of the
\* microseconds
Float(i) == (((RInt(i[1]) \otimes RInt(86400)) \oplus RInt(i[2]))
             \oplus (RInt(i[3]) \oslash RLit("1e6")))
BadDate(e) ==
  LET i == Instant(e) IN
  Check(Valid(e.y, e.mo, e.d), "driver") \cup
  IF Supported(i)
  THEN Check(e.raised = "", "refused") \cup
       Check(e.raised # "" \/ e.int = i, "whole microseconds") \cup
       Check(e.raised # "" \/ (/\ RClose(e.float, Float(i), RLit("3e-7"))
                               /\ i[3] = 0 => REq(e.float, Float(i))),
             "seconds")
  ELSE Check(e.raised = "ValueError" /\ e.fraised = "ValueError", "accepted")
\* What is not a naive datetime
BadOther(e) == Check(e.raised = "ValueError" /\ e.fraised = "ValueError",
                     "accepted")
Readable(e) == e.kind \in {"plain", "strided", "reversed", "readonly",
                           "empty", "column"} /\ e.unit \in DOMAIN Unit
\* Not a time is not a date either
Same(r, v, unit) == IF v = "NaT" THEN RIsNaN(r) ELSE Agrees(r, v, unit)
BadArray(e) ==
  IF Readable(e)
  THEN Check(e.raised = "", "refused") \cup
       Check(Len(e.result) = Len(e.v), "length") \cup
       Check(Len(e.result) # Len(e.v) \/
             \A i \in 1..Len(e.v) : Same(e.result[i], e.v[i], e.unit),
             "instants") \cup
       Check(e.same, "the array changed")
  ELSE Check(e.raised \in {"ValueError", "TypeError"}, "accepted")
\* The same instants in two units
BadBoth(e) == Check(\A i \in 1..Len(e.a) :
                    RClose(e.a[i], e.b[i],
                           RLit("1e-15") \otimes RAbs(e.a[i])), "units differ")
\* The same instants as datetimes and as an array
BadClient(e) == Check(\A i \in 1..Len(e.a) : RClose(e.a[i], e.b[i],
                                                    RLit("6e-7")),
                      "dates differ")
Bad(e) == CASE e.op = "date" -> BadDate(e)
            [] e.op = "other" -> BadOther(e)
            [] e.op = "array" -> BadArray(e)
            [] e.op = "both" -> BadBoth(e)
            [] e.op = "client" -> BadClient(e)
            [] OTHER -> {e.op}
Next == /\ l < Len(Trace[s].ev)
        /\ LET e == Trace[s].ev[l + 1]
               bad == Bad(e)
           IN bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ l' = l + 1
        /\ s' = s
===============================================================================
