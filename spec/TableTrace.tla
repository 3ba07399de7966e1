----------------------------- MODULE TableTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded sessions on wave::Table,                        *)
(* wave::LongPeriodEquilibrium and the names of the constituents.          *)
(***************************************************************************)
EXTENDS Tables, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, tabs, lp
vars == <<s, l, tabs, lp>>

Init == s \in 1..Len(Trace) /\ l = 0 /\ tabs = <<>> /\ lp = {}

NameAll(q) == [i \in 1..Len(q) |-> IF q[i] \in Ids THEN NameOf(q[i]) ELSE "?"]
Check(c, what) == IF c THEN {} ELSE {what}

(***************************************************************************)
(* C08                                                                     *)
(***************************************************************************)
BadKnown(e) ==
  Check(Len(e.names) = Cardinality(Ids) /\ Set(e.ids) = Ids, "known") \cup
  Check(e.names = NameAll(e.ids) /\ e.back = e.names, "names")
BadParse(e) ==
  LET id == Parse(e.text) IN
  IF id = Unknown THEN Check(e.raised = "invalid_argument", "accepted")
  ELSE Check(e.raised = "" /\ e.id = id, "identity")
BadMake(e) ==
  IF e.id \in Ids
  THEN Check(e.raised = "" /\ e.got = e.id /\ e.name = NameOf(e.id), "made")
  ELSE Check(e.raised # "", "made")
BadViews(e, held) ==
  Check(Set(e.index) = held /\ Len(e.index) = Cardinality(held), "held") \cup
  Check(e.size = Cardinality(held), "size") \cup
  Check(e.iter = e.index /\ e.miter = e.index, "iteration") \cup
  Check(e.names = NameAll(e.index) /\ e.iternames = e.names, "names") \cup
  Check(\A id \in Ids : e.byid[id + 1] = IF id \in held THEN id ELSE -1,
        "by identifier") \cup
  Check(\A id \in Ids : e.found[id + 1] = IF id \in held THEN id ELSE -1,
        "by name") \cup
  Check(e.beyond = "out_of_range", "beyond the end")
Asked(e) == LET a == IF "asked" \in DOMAIN e
                     THEN {Parse(e.asked[i]) : i \in 1..Len(e.asked)}
                     ELSE Set(e.askedids)
            IN IF a = {} THEN Ids ELSE a
BadTable(e) == IF Unknown \in Asked(e) THEN {"accepted"}
               ELSE BadViews(e, Asked(e))
BadRefused(e) == Check(Unknown \in Asked(e) /\ e.raised = "invalid_argument",
                       "refused")
BadFind(e) ==
  LET id == Parse(e.text) IN
  IF id = Unknown THEN Check(e.raised = "invalid_argument", "accepted")
  ELSE Check(e.raised = "" /\ e.id = IF id \in Set(tabs[e.slot].order)
                                     THEN id ELSE -1, "found")

(***************************************************************************)
(* What a table holds                                                      *)
(***************************************************************************)
Tol == RLit("1e-7")
BadDump(e) ==
  LET t == tabs[e.slot]
      n == Len(t.order)
      f == IF t.nod = <<>> THEN <<>> ELSE AllF(t.nod[1])
      flags(q) == {e.ids[i] : i \in {j \in 1..n : q[j] = 1}}
  IN IF e.ids # t.order THEN {"held"}
     ELSE
     UNION {LET id == e.ids[i] IN
            Check(IF id \in t.adm /\ id \in Related
                  THEN CNear(e.tide[i], t.v[id], RLit("1e-11"))
                  ELSE CSame(e.tide[i], t.v[id]), <<NameOf(id), "value">>)
            : i \in 1..n} \cup
     Check(flags(e.adm) = t.adm /\ flags(e.dyn) = t.dyn, "flags") \cup
     (IF t.nod = <<>> THEN {}
      ELSE UNION {
        LET id == e.ids[i]
            a == t.nod[1]
        IN Check(RNear(e.f[i], f[id], Tol) \/ id \in Unjudged,
                 <<NameOf(id), "f">>) \cup
           Check(RCloseMod(e.v[i], V(W(id), a), TwoPi, Tol),
                 <<NameOf(id), "v">>) \cup
           Check(RNear(e.u[i], U(W(id), a), Tol), <<NameOf(id), "u">>)
        : i \in 1..n}) \cup
     Check(t.raw = <<>> \/ t.raw = <<e.f, e.v, e.u>>, "corrections changed")

(***************************************************************************)
(* C17                                                                     *)
(***************************************************************************)
ElementsOf(f, d) == Elements(f, d.e, RInt(d.l))
BadSeries(e) ==
  LET t == tabs[e.slot]
      tol == Tol \otimes Magnitude(e.wave)
  IN IF Len(e.h) # Len(e.dates) THEN {"size"}
     ELSE Check(\A i \in 1..Len(e.h) :
                  RClose(e.h[i], Series(t, e.wave, ElementsOf(e.f, e.dates[i])),
                         tol), "series")
BadMap(e) ==
  LET t == tabs[e.slot]
      n == Len(t.order)
      a == Elements(e.f, e.e, RInt(e.l))
      f == AllF(a)
      phi == [j \in 1..n |-> V(W(t.order[j]), a) \oplus U(W(t.order[j]), a)]
      co == [j \in 1..n |-> f[t.order[j]] \otimes RCos(phi[j])]
      si == [j \in 1..n |-> f[t.order[j]] \otimes RSin(phi[j])]
      w(i, j) == e.wave[(i - 1) * n + j]
  IN IF e.nr # e.cols \/ e.nc # n THEN {"shape"}
     ELSE Check(\A i \in 1..e.cols, j \in 1..n :
                  \/ t.order[j] \in Unjudged
                  \/ CIsNaN(w(i, j)) /\ RIsNaN(e.m[i][j])
                  \/ RClose(e.m[i][j],
                            (co[j] \otimes w(i, j)[1]) \oplus
                            (si[j] \otimes w(i, j)[2]),
                            Tol \otimes (One \oplus RAbs(w(i, j)[1]) \oplus
                                         RAbs(w(i, j)[2]))),
                "map")
BadMods(e) ==
  LET t == tabs[e.slot]
      n == Len(t.order)
      bad(k) ==
        LET a == ElementsOf(e.f, e.dates[k])
            f == AllF(a)
        IN UNION {
          LET id == t.order[j] IN
          Check(RNear(e.nf[j][k], f[id], Tol) \/ id \in Unjudged,
                <<NameOf(id), "f">>) \cup
          Check(RCloseMod(e.nvu[j][k], V(W(id), a) \oplus U(W(id), a), TwoPi,
                          Tol), <<NameOf(id), "vu">>)
          : j \in 1..n}
  IN IF Len(e.nf) # n \/ Len(e.nvu) # n \/
        (\E j \in 1..n : Len(e.nf[j]) # Len(e.dates) \/
                         Len(e.nvu[j]) # Len(e.dates))
     THEN {"shape"}
     ELSE UNION {bad(k) : k \in 1..Len(e.dates)}

(***************************************************************************)
(* C16: the solution of the least squares problem                          *)
(***************************************************************************)
BadAnalyse(e) ==
  LET n == Len(e.ids)
      m == Len(e.h)
      missing == \E k \in 1..m : RIsNaN(e.h[k])
      co == [i \in 1..n |-> [k \in 1..m |->
               e.f[i][k] \otimes RCos(e.vu[i][k])]]
      si == [i \in 1..n |-> [k \in 1..m |->
               e.f[i][k] \otimes RSin(e.vu[i][k])]]
      res == [k \in 1..m |->
               e.h[k] \ominus
               RSum([i \in 1..n |-> (e.w[i][1] \otimes co[i][k]) \oplus
                                    (e.w[i][2] \otimes si[i][k])])]
      scale == One \oplus RSqrt(RSumProd(e.h, e.h) \otimes RInt(m))
  IN IF Len(e.w) # n THEN {"size"}
     ELSE IF missing
     THEN Check(\A i \in 1..n : RIsNaN(e.w[i][1]) /\ RIsNaN(e.w[i][2]),
                "missing value")
     ELSE Check(\A i \in 1..n :
                  /\ RClose(RSumProd(res, co[i]), Zero,
                            RLit("1e-7") \otimes scale)
                  /\ RClose(RSumProd(res, si[i]), Zero,
                            RLit("1e-7") \otimes scale),
                "not the least squares solution") \cup
          Check(e.exact => \A i \in 1..n :
                  /\ RClose(e.w[i][1], e.truth[i][1], RLit("1e-5"))
                  /\ RClose(e.w[i][2], e.truth[i][2], RLit("1e-5")),
                "not recovered")
BadSelect(e) ==
  LET got == {Parse(e.names[i]) : i \in 1..Len(e.names)}
      edge == Borderline(e.d, e.f)
  IN Check(/\ got \ edge = Selected(e.d, e.f) \ edge
           /\ got \subseteq Ids
           /\ Cardinality(got) = Len(e.names), "selection")

(***************************************************************************)
(* C05                                                                     *)
(***************************************************************************)
BadLp(e) ==
  LET a == Elements(e.f, e.e, RInt(e.l)) IN
  Check(Len(e.r) = Len(e.lat) /\
        \A i \in 1..Len(e.r) :
          IsLpe(e.r[i], a, e.lat[i], lp, RLit("1e-6")), "equilibrium")

Bad(e) ==
  CASE e.op = "known" -> BadKnown(e)
    [] e.op = "parse" -> BadParse(e)
    [] e.op = "make" -> BadMake(e)
    [] e.op = "table" -> BadTable(e)
    [] e.op = "refused" -> BadRefused(e)
    [] e.op = "views" -> BadViews(e, Set(tabs[e.slot].order))
    [] e.op = "find" -> BadFind(e)
    [] e.op \in {"copy", "assign", "move", "set", "admit", "nodal", "lpnew",
                 "lpdis"} -> {}
    [] e.op = "dump" -> BadDump(e)
    [] e.op = "series" -> BadSeries(e)
    [] e.op = "map" -> BadMap(e)
    [] e.op = "mods" -> BadMods(e)
    [] e.op = "analyse" -> BadAnalyse(e)
    [] e.op = "select" -> BadSelect(e)
    [] e.op = "lp" -> BadLp(e)
    [] OTHER -> {e.op}

Put(slot, t) == (slot :> t) @@ tabs
Without(slot) == [x \in DOMAIN tabs \ {slot} |-> tabs[x]]
Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ tabs' =
             CASE e.op = "table" -> Put(e.slot, NewTable(e.index))
               [] e.op \in {"copy", "assign"} -> Put(e.to, tabs[e.from])
               [] e.op = "move" -> (e.to :> tabs[e.from]) @@ Without(e.from)
               [] e.op = "set" ->
                    Put(e.slot, SetWave(tabs[e.slot], e.id, e.v, e.adm, e.dyn))
               [] e.op = "admit" -> Put(e.slot, Admitted(tabs[e.slot]))
               [] e.op = "nodal" ->
                    Put(e.slot, [tabs[e.slot] EXCEPT
                                   !.nod = <<Elements(e.f, e.e, RInt(e.l))>>,
                                   !.raw = <<>>])
               [] e.op = "dump" ->
                    Put(e.slot, [tabs[e.slot] EXCEPT
                                   !.raw = <<e.f, e.v, e.u>>])
               [] OTHER -> tabs
        /\ lp' = CASE e.op = "lpnew" ->
                        IF e.slot = -1 THEN {} ELSE tabs[e.slot].dyn
                   [] e.op = "lpdis" -> lp \cup tabs[e.slot].dyn
                   [] OTHER -> lp
  /\ l' = l + 1
  /\ s' = s
=============================================================================
