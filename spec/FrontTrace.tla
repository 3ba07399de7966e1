------------------------------ MODULE FrontTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded calls of the Python front end (C22): what the   *)
(* core was called with, and what the caller got back.  `table` is the     *)
(* leap second table, `formulae` that of the astronomical angle, `date`    *)
(* the date it holds.                                                      *)
(***************************************************************************)
EXTENDS FrontEnd, Leap, Names, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, table, date
Init == s \in 1..Len(Trace) /\ l = 0 /\ table = <<>> /\ date = <<>>
Check(c, what) == IF c THEN {} ELSE {what}
First == "answer 1"

Late(a, b) == Before(a, b) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3])
\* One call of the core, this one, its answer handed back
Eq(a, b) == ToString(a) = ToString(b)   \* whatever a is
Called(e, call) ==
  /\ Len(e.calls) = 1
  /\ DOMAIN e.calls[1] = DOMAIN call
  /\ \A k \in DOMAIN call : Eq(e.calls[1][k], call[k])
Relayed(e, call) == e.raised = "" /\ Called(e, call) /\ Eq(e.result, First)
Refused(e) == e.raised # "" /\ e.calls = <<>>

Parsed(names) == [i \in 1..Len(names) |-> Parse(names[i])]
Evaluate(e) ==
  IF TooEarly(e.given.dates) THEN Refused(e)
  ELSE Relayed(e, [fn |-> "evaluate", model |-> e.given.model,
                   dates |-> e.given.dates,
                   leap |-> Counts(table, e.given.dates),
                   lon |-> e.given.lon, lat |-> e.given.lat,
                   settings |-> IF e.default THEN Default
                                ELSE SettingsOf(e.formulae, e.tol,
                                                Parsed(e.excluded)),
                   threads |-> Or(e.threads, 0)])
Settings(e) ==
  LET ids == Parsed(e.excluded)
  IN IF Unknown \in {ids[i] : i \in 1..Len(ids)} THEN Refused(e)
     ELSE e.raised = "" /\ Eq(e.result, SettingsOf(e.formulae, e.tol, ids))
Update(e) ==
  IF Before(e.given.date, Dawn) THEN Refused(e)
  ELSE /\ e.raised = "" /\ Len(e.calls) = 1 /\ e.calls[1].fn = "update"
       /\ LET d == e.calls[1].date
          IN /\ IF e.now THEN Late(e.given.date, d) /\ Late(d, e.given.end)
                ELSE d = e.given.date
             /\ e.calls[1].leap = Count(table, d)
Mods(e) ==
  IF ~e.fine THEN Refused(e)
  ELSE Relayed(e, [fn |-> "mods", table |-> e.table,
                   dates |-> e.given.dates, leap |-> e.given.leap,
                   formulae |-> Or(e.formulae, Order1)])
Series(e) ==
  IF e.dict /\ ~Fits(e.named, e.table) THEN Refused(e)
  ELSE Relayed(e, [fn |-> "series", table |-> e.table,
                   dates |-> e.given.dates, leap |-> e.given.leap,
                   wave |-> IF e.dict THEN InOrder(e.named, e.table)
                            ELSE e.given.wave,
                   formulae |-> Or(e.formulae, Order3)])
Mapping(e) ==
  Relayed(e, [fn |-> "mapping", table |-> e.table, date |-> e.given.date,
              leap |-> e.given.leap, wave |-> e.given.wave,
              formulae |-> Or(e.formulae, Order3),
              threads |-> Or(e.threads, 0)])
\* The stand-in answers <<1, k>> for the k-th constituent, counted from 0.
Harmonic(e) ==
  /\ e.raised = ""
  /\ Called(e, [fn |-> "harmonic", h |-> e.given.h, f |-> e.given.f,
                vu |-> e.given.vu])
  /\ IF e.dict THEN e.labelled /\ Fits(e.result, e.table) /\
                    Eq(InOrder(e.result, e.table), e.answer)
     ELSE ~e.labelled /\ Eq(e.result, e.answer)
Speeds(e) == e.raised = "" /\
           IF e.dict THEN e.labelled /\ Fits(e.result, e.table) /\
                Eq(InOrder(e.result, e.table), e.truth)
           ELSE ~e.labelled /\ Eq(e.result, e.truth)
Bad(e) ==
  CASE e.op \in {"start", "shipped", "net"} -> {}
    [] e.op = "settings" -> Check(Settings(e), "settings")
    [] e.op = "evaluate" -> Check(Evaluate(e), "evaluate")
    [] e.op = "angle" -> Check(e.raised = "" /\ Called(e,
         [fn |-> "angle", formulae |-> Or(e.formulae, Order1)]), "angle")
    [] e.op = "update" -> Check(Update(e), "update")
    [] e.op = "date" -> Check(e.date = IF date = <<>> THEN e.old ELSE date,
                              "the date of the angle")
    [] e.op = "mods" -> Check(Mods(e), "modulations")
    [] e.op = "series" -> Check(Series(e), "series")
    [] e.op = "mapping" -> Check(Mapping(e), "mapping")
    [] e.op = "harmonic" -> Check(Harmonic(e), "harmonic analysis")
    [] e.op = "freq" -> Check(Speeds(e), "frequencies")
    [] OTHER -> {e.op}
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e) \cup (IF "same" \in DOMAIN e
                             THEN Check(e.same, "the arguments changed")
                             ELSE {})
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ table' = IF e.op \in {"start", "shipped"} THEN e.table ELSE table
        \* what the core was given last
        /\ date' = IF e.op = "update"
                   THEN IF e.calls = <<>> THEN <<>> ELSE e.calls[1].date
                   ELSE date
  /\ l' = l + 1
  /\ s' = s
=============================================================================
