------------------------------- MODULE BindTrace ------------------------------
(***************************************************************************)
(* What the Python bindings have of their own (C24): the members of the    *)
(* enumerations, the settings, and the sizes of the arrays they are given. *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(Trace) /\ l = 0
Check(c, what) == IF c THEN {} ELSE {what}

Members == [Quality |-> [kUndefined |-> 0, kExtrapolated1 |-> 1,
                         kExtrapolated2 |-> 2, kExtrapolated3 |-> 3,
                         kInterpolated |-> 4],
            TideType |-> [kTide |-> 1, kRadial |-> 2],
            Formulae |-> [kSchuremanOrder1 |-> 0, kSchuremanOrder3 |-> 1,
                          kMeeus |-> 2]]
\* name -> id
Named == [n \in {"k" \o NameOf(id) : id \in Ids} |->
            CHOOSE id \in Ids : "k" \o NameOf(id) = n]
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
BadEnums(e) ==
  Check(Same(e.Constituent, Named), "Constituent") \cup
  Check(Same(e.Quality, Members.Quality), "Quality") \cup
  Check(Same(e.TideType, Members.TideType), "TideType") \cup
  Check(Same(e.Formulae, Members.Formulae), "Formulae") \cup
  Check(DOMAIN e.TidalType = {"kLongPeriod", "kShortPeriod"}, "TidalType")
  \cup UNION {Check(e.exported[x], <<"not in pyfes.core", x>>)
              : x \in DOMAIN e.exported}

\* "-": not given
BadSettings(e) ==
  Check(e.gf = IF e.f = "-" THEN "schureman1" ELSE e.f, "formulae") \cup
  Check(RSame(e.gtol, e.tol), "time_tolerance") \cup
  Check(e.gx = e.excluded, "excluded")

\* The sizes a call accepts, and what it then gives
Accepts(call, n) ==
  CASE call \in {"evaluate"} -> n[1] = n[2] /\ n[2] = n[3] /\ n[3] = n[4]
    [] call \in {"interpolate", "mods"} -> n[1] = n[2]
    [] call = "series" -> n[1] = n[2] /\ n[3] = 3
    [] call = "mapping" -> n[1] = 3
    [] call = "analysis" -> n[1] = n[3] /\ n[2] = n[4] /\ n[3] = n[5]
    [] call = "add" -> n[1] = 12
Gives(call, n) ==
  CASE call = "evaluate" -> <<n[1], n[1], n[1]>>
    [] call = "interpolate" -> <<n[1], n[1]>>
    [] call = "mods" -> <<3, n[1], 3, n[1]>>
    [] call = "series" -> <<n[1]>>
    [] call = "mapping" -> <<3 * n[2]>>
    [] call = "analysis" -> <<n[2]>>
    [] call = "add" -> <<1>>
BadSizes(e) ==
  IF Accepts(e.call, e.n)
  THEN Check(e.raised = "", "refused") \cup
       Check(e.raised # "" \/ e.got = Gives(e.call, e.n), "sizes")
  ELSE Check(e.raised = "invalid_argument", "accepted")

\* A table that does not hold a constituent of the model
BadPartial(e) ==
  IF \A i \in 1..Len(e.model) : e.model[i] \in {e.table[j] : j \in 1..Len(e.table)}
  THEN Check(e.raised = "", "refused") ELSE Check(e.raised = "out_of_range",
                                                  "accepted")
Bad(e) ==
  CASE e.op = "enums" -> BadEnums(e)
    [] e.op = "settings" -> BadSettings(e)
    [] e.op = "sizes" -> BadSizes(e)
    [] e.op = "partial" -> BadPartial(e)
    [] e.op = "units" ->
         IF e.unit \in {"as", "fs", "ps", "ns", "us", "ms", "s", "m", "h", "D"}
         THEN Check(e.raised = "", "refused") \cup
              Check(e.raised # "" \/ e.same, "not the date")
         ELSE Check(e.raised = "invalid_argument", "accepted")
    [] e.op = "leap" -> Check((e.raised = "") = (e.n >= 0 /\ e.n < 65536),
                              "leap seconds")
    [] e.op = "defaults" ->       \* the same as the previous one
         IF l > 0 /\ Trace[s].ev[l].op = "defaults"
                 /\ Trace[s].ev[l].what = e.what
         THEN Check(e.state = Trace[s].ev[l].state, "defaults") ELSE {}
    [] OTHER -> {e.op}
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
  /\ l' = l + 1
  /\ s' = s
=============================================================================
