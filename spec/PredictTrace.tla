----------------------------- MODULE PredictTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded sessions on tidal models (C01, C02, C03, C19).  *)
(*                                                                         *)
(* State: the model being built (type, data: constituent -> value of its   *)
(* first data set, declared dynamic constituents), the settings, what each *)
(* request returned when it was evaluated alone (memo), and the dates an   *)
(* accelerator has been given (dates).                                     *)
(***************************************************************************)
EXTENDS Predict, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, model, cfg, memo, dates
vars == <<s, l, model, cfg, memo, dates>>

NoModel == [type |-> "none", data |-> <<>>, dyn |-> {}]
DefaultCfg == [f |-> "schureman1", tol |-> Zero, excluded |-> {}]
Init == /\ s \in 1..Len(Trace) /\ l = 0
        /\ model = NoModel
        /\ cfg = DefaultCfg
        /\ memo = [n |-> 0]
        /\ dates = <<>>

Set(q) == {q[i] : i \in 1..Len(q)}
Provided == DOMAIN model.data
Dyn == Dynamic(Provided, model.dyn, cfg.excluded)

(***************************************************************************)
(* eval: every request against the documented synthesis                    *)
(***************************************************************************)
Tol(mag) == RLit("1e-7") \otimes (One \oplus mag)
BadOne(e, i) ==
  LET q == e.reqs[i]
      sn == e.seen[i]
      a == Elements(cfg.f, q.e, RInt(q.l))
      interp == [id \in Set(sn.ids) |->
                   sn.v[CHOOSE k \in 1..Len(sn.ids) : sn.ids[k] = id]]
      und == sn.q = 0
      syn == IF und THEN <<NaN, Zero, One>> ELSE Synthesis(interp, Dyn, a)
      lpe(x) == IF model.type = "tide"
                THEN IsLpe(x \ominus syn[2], a, q.y, Dyn,
                           RLit("1e-6") \oplus Tol(syn[3]))
                ELSE RNear(x, syn[2], Tol(syn[3]))
  IN (IF Set(sn.ids) = Provided /\ Len(sn.ids) = Cardinality(Provided)
      THEN {} ELSE {"constituents"}) \cup
     (IF ~und => \A id \in Provided :
                   model.data[id].c => CNear(interp[id], model.data[id].v,
                                             RLit("1e-9"))
      THEN {} ELSE {"values"}) \cup
     (IF RNear(e.r.h[i], syn[1], Tol(syn[3])) THEN {} ELSE {"tide"}) \cup
     (IF lpe(e.r.lp[i]) THEN {} ELSE {"long period"}) \cup
     (IF e.r.q[i] = sn.q THEN {} ELSE {"quality"})
BadEval(e) ==
  LET n == Len(e.reqs) IN
  IF Len(e.r.h) # n \/ Len(e.r.lp) # n \/ Len(e.r.q) # n \/ Len(e.seen) # n
  THEN {"size"}
  ELSE UNION {BadOne(e, i) : i \in 1..n}

(***************************************************************************)
(* batch: each result is the one of the request evaluated alone            *)
(***************************************************************************)
Like(x, y) == RNear(x, y, RLit("1e-9"))
BadBatch(e) ==
  LET n == Len(e.idx) IN
  IF Len(e.r.h) # n \/ Len(e.r.lp) # n \/ Len(e.r.q) # n THEN {"size"}
  ELSE IF \A i \in 1..n : LET k == e.idx[i] + 1 IN
            /\ Like(e.r.h[i], memo.r.h[k])
            /\ Like(e.r.lp[i], memo.r.lp[k])
            /\ e.r.q[i] = memo.r.q[k]
       THEN {} ELSE {"not the result of the request alone"}
\* the same with a time tolerance: the date of some request of the batch, at
\* most that old, was used instead (cross: what this gives)
BadLate(e) ==
  LET n == Len(e.idx)
      ok(i) == \E j \in 1..n :
        /\ \/ i = j
           \/ /\ RAbs(memo.reqs[e.idx[i] + 1].e \ominus
                      memo.reqs[e.idx[j] + 1].e) \preceq cfg.tol
              /\ e.threads = 1 => j < i
        /\ Like(e.r.h[i], memo.h[i][j]) /\ Like(e.r.lp[i], memo.lp[i][j])
  IN IF Len(e.r.h) # n \/ Len(e.r.lp) # n THEN {"size"}
     ELSE IF memo.idx # e.idx THEN {"idx"}
     ELSE IF \A i \in 1..n : ok(i) THEN {} ELSE {"angles of another date"}

(***************************************************************************)
(* angle: the elements used are those of a date at most tol seconds away   *)
(***************************************************************************)
SameElements(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RSame(x[i], y[i])
BadAngle(e) ==
  LET all == Append(dates, [e |-> e.e, l |-> e.l, a |-> e.fresh])
      ok(d) == \/ /\ RAbs(d.e \ominus e.e) \preceq cfg.tol
                  /\ cfg.tol = Zero => d.l = e.l
                  /\ SameElements(e.a, d.a)
               \/ d.e = e.e /\ d.l = e.l /\ SameElements(e.a, d.a)
  IN IF \E i \in 1..Len(all) : ok(all[i]) THEN {} ELSE {"angles"}

Bad(e) ==
  CASE e.op = "new" -> IF e.type \in {"tide", "radial"} THEN {} ELSE {"type"}
    [] e.op \in {"add", "dyn", "clear", "cfg", "reqs", "acc"} -> {}
    [] e.op = "cross" -> {}
    [] e.op = "eval" -> BadEval(e)
    [] e.op = "batch" -> IF cfg.tol = Zero THEN BadBatch(e) ELSE BadLate(e)
    [] e.op = "angle" -> BadAngle(e)
    [] OTHER -> {e.op}

Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ model' =
             CASE e.op = "new" -> [NoModel EXCEPT !.type = e.type]
               [] e.op = "add" ->
                    IF e.id \in Provided THEN model
                    ELSE [model EXCEPT !.data = @ @@ (e.id :> [c |-> e.const, v |-> e.v0])]
               [] e.op = "dyn" -> [model EXCEPT !.dyn = Set(e.ids)]
               [] e.op = "clear" -> [model EXCEPT !.data = <<>>, !.dyn = {}]
               [] OTHER -> model
        /\ cfg' = CASE e.op = "cfg" -> [f |-> e.f, tol |-> e.tol,
                                        excluded |-> Set(e.excluded)]
                    [] e.op = "acc" -> [cfg EXCEPT !.f = e.f, !.tol = e.tol]
                    [] OTHER -> cfg
        /\ memo' = IF e.op \in {"reqs", "cross"} THEN e @@ memo ELSE memo
        /\ dates' = CASE e.op = "acc" -> <<>>
                      [] e.op = "angle" ->
                           Append(dates, [e |-> e.e, l |-> e.l, a |-> e.fresh])
                      [] OTHER -> dates
  /\ l' = l + 1
  /\ s' = s
=============================================================================
