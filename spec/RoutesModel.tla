----------------------------- MODULE RoutesModel -----------------------------
(***************************************************************************)
(* How a constituent reaches the prediction (C03).  One constituent of     *)
(* each kind; the model is built by any sequence of additions,             *)
(* declarations and removals, then evaluated with some of them excluded.   *)
(*                                                                         *)
(* The flags the evaluation works with (dynamic, admittance, lines removed *)
(* from the equilibrium tide) must realise exactly the route the           *)
(* documentation describes, and one route only.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxOps

\* kinds: short-period inferable, major, long-period with a line in the
\* equilibrium spectrum, long-period without
Kinds == {"infer", "major", "line", "long"}
None == 0

VARIABLES data, declared, excluded, hist
vars == <<data, declared, excluded, hist>>

Init == /\ data = [k \in Kinds |-> None]
        /\ declared = {} /\ excluded = {} /\ hist = <<>>

Building == IF hist = <<>> THEN TRUE ELSE hist[Len(hist)][1] # "eval"
Add(k, n) == /\ data' = IF data[k] = None THEN [data EXCEPT ![k] = n] ELSE data
             /\ hist' = Append(hist, <<"add", k, n>>)
             /\ UNCHANGED <<declared, excluded>>
Declare(d) == /\ declared' = d
              /\ hist' = Append(hist, <<"dyn", d>>)
              /\ UNCHANGED <<data, excluded>>
Clear == /\ data' = [k \in Kinds |-> None] /\ declared' = {}
         /\ hist' = Append(hist, <<"clear">>)
         /\ UNCHANGED excluded
Provided == {k \in Kinds : data[k] # None}
\* (a constituent that is provided, declared and excluded at the same time
\* has no documented route)
Eval(x) == /\ (x \cap Provided) \cap declared = {}
           /\ excluded' = x
           /\ hist' = Append(hist, <<"eval", x>>)
           /\ UNCHANGED <<data, declared>>
Next == /\ Building
        /\ \/ /\ Len(hist) < MaxOps
              /\ \/ \E k \in Kinds, n \in 1..2 : Add(k, n)
                 \/ \E d \in SUBSET Kinds : Cardinality(d) <= 2 /\ Declare(d)
                 \/ Clear
           \/ \E x \in SUBSET Kinds : Cardinality(x) <= 2 /\ Eval(x)

(* The documented route *)
Route(k) == IF k \in Provided /\ k \notin excluded THEN "interpolated"
            ELSE IF k \in declared THEN "nothing"
            ELSE IF k = "infer" THEN "inferred"
            ELSE IF k = "line" THEN "equilibrium"
            ELSE "none"

(* What the evaluation computes *)
DynFlag(k) == (k \in Provided /\ k \notin excluded) \/ k \in declared
AdmFlag(k) == k = "infer" /\ ~DynFlag(k)
Summed(k) == DynFlag(k) \/ AdmFlag(k)
LineKept(k) == k = "line" /\ ~DynFlag(k)
Value(k) == IF AdmFlag(k) THEN "relation"
            ELSE IF k \in Provided THEN "interpolation" ELSE "zero"

RouteIsRealised ==
  ~Building =>
  \A k \in Kinds :
    CASE Route(k) = "interpolated" -> Summed(k) /\ ~LineKept(k) /\
                                      Value(k) = "interpolation"
      [] Route(k) = "nothing" -> (Summed(k) => Value(k) = "zero") /\
                                 ~LineKept(k)
      [] Route(k) = "inferred" -> Summed(k) /\ Value(k) = "relation"
      [] Route(k) = "equilibrium" -> ~Summed(k) /\ LineKept(k)
      [] Route(k) = "none" -> ~Summed(k) /\ ~LineKept(k)
NeverTwice == ~Building => \A k \in Kinds : ~(Summed(k) /\ LineKept(k))
FirstWins ==
  \A k \in Kinds : data[k] # None =>
    \E i \in 1..Len(hist) :
      /\ hist[i][1] = "add" /\ hist[i][2] = k /\ hist[i][3] = data[k]
      /\ \A j \in 1..(i - 1) : hist[j][1] = "add" /\ hist[j][2] = k =>
           \E c \in (j + 1)..(i - 1) : hist[c][1] = "clear"
Emit == Building \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
