------------------------------ MODULE WavesTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded sessions on angle::Astronomic and Wave.         *)
(* The state of the object is <<formulae, elements>>: an update replaces   *)
(* the elements by those of the date, whatever they were; the arguments    *)
(* and corrections of the constituents are functions of the elements.      *)
(***************************************************************************)
EXTENDS Constituents, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, formulae, a
vars == <<s, l, formulae, a>>

Init == s \in 1..Len(Trace) /\ l = 0 /\ formulae = "none" /\ a = <<>>
Ev == Trace[s].ev[l + 1]

\* What is wrong with the arguments recorded by e: a set of <<name, what>>
Tol == RLit("1e-9")
BadNodal(e) ==
  LET f == AllF(e.a)
      m23k2 == FM2(e.a) \otimes FM2(e.a) \otimes FM2(e.a) \otimes FK2(e.a)
      bad(id) ==
        LET w == W(id)
            ev == e.v[id + 1]
            eu == e.u[id + 1]
            ef == e.f[id + 1]
            evu == e.vu[id + 1]
        IN (IF RCloseMod(ev, V(w, e.a), TwoPi, Tol) THEN {}
            ELSE {<<w.name, "V">>}) \cup
           (IF RIsFinite(eu) /\ RNear(eu, U(w, e.a), Tol) THEN {}
            ELSE {<<w.name, "u">>}) \cup
           (IF RIsFinite(ef) /\ RNear(ef, f[id], Tol) THEN {}
            ELSE IF w.name = "2MK6" /\ RNear(ef, m23k2, Tol)
                 THEN \* known finding, reported by one session only
                      IF e.route = "2MK6"
                      THEN {<<w.name, "f is M2^3*K2">>} ELSE {}
                 ELSE {<<w.name, "f">>}) \cup
           (IF /\ RCloseMod(evu, ev \oplus eu, TwoPi, Tol)
               /\ RAbs(evu) \prec (TwoPi \oplus Tol) THEN {}
            ELSE {<<w.name, "vu">>})
  IN UNION {bad(id) : id \in Ids}

BadStatic(e) ==
  IF e.id \notin Ids THEN {"id"}
  ELSE LET w == W(e.id) IN
    (IF e.ident = e.id /\ e.name = w.name THEN {} ELSE {"name"}) \cup
    (IF e.long = w.long THEN {} ELSE {"type"}) \cup
    (IF e.dynamic = FALSE /\ e.admit = w.admit THEN {} ELSE {"flags"}) \cup
    (IF RNear(e.freq, Freq(w), RLit("1e-13")) THEN {} ELSE {"freq"}) \cup
    (IF \/ RIsFinite(e.period) /\
           RClose(e.period \otimes e.freq, TwoPi, RLit("1e-12"))
        \/ e.freq = Zero
     THEN {} ELSE {"period"}) \cup
    (IF IsDoodson(e.doodson, w) THEN {} ELSE {"doodson"})

BadElements(e) ==
  LET want == Longitudes(formulae, e.epoch, RInt(e.leap))
      bad(x) ==
        (IF SameLongitudes(x, want) THEN {} ELSE {"longitudes"}) \cup
        (IF Normalised(x) THEN {} ELSE {"normalised"}) \cup
        (IF SameDerived(x, Derived(x.n, x.p)) THEN {} ELSE {"derived"})
  IN bad(e.a) \cup bad(e.b) \cup (IF e.a = e.b THEN {} ELSE {"update"})

Bad(e) ==
  CASE e.op = "new" ->
         IF e.ok <=> (e.formulae \in Formulae) THEN {} ELSE {"formulae"}
    [] e.op = "upd" -> BadElements(e)
    [] e.op = "set" -> {}
    [] e.op = "nodal" ->
         (IF e.a = a THEN {} ELSE {"elements"}) \cup BadNodal(e)
    [] e.op = "static" -> BadStatic(e)
    [] OTHER -> {e.op}

Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Ev
         bad == Bad(e)
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ formulae' = IF e.op = "new" THEN e.formulae ELSE formulae
        /\ a' = IF e.op \in {"upd", "set"} THEN e.a ELSE a
  /\ l' = l + 1
  /\ s' = s
=============================================================================
