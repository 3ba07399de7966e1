--------------------------- MODULE AdmittanceModel ----------------------------
(***************************************************************************)
(* The relations of admittance (C04): what inference does for every choice *)
(* of the constituents that may be inferred among Chosen.                  *)
(***************************************************************************)
EXTENDS Admittance, FiniteSets, TLC
CONSTANT Samples

VARIABLES flag, v, done
vars == <<flag, v, done>>
Chosen == {IdOf(x) : x \in {"2N2", "Eps2", "Mu2", "2Q1", "J1", "T2"}}
\* arbitrary values: constituent id of sample k
Value(k, id) == <<RSin(RInt(7 * id + k)) \otimes RInt(50),
                  RCos(RInt(5 * id + 3 * k)) \otimes RInt(50)>>
Sample(k) == [id \in Ids |-> Value(k, id)]
Init == /\ flag \in SUBSET Chosen
        /\ v \in {Sample(k) : k \in 1..Samples}
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ v' = Infer(v, flag) /\ UNCHANGED flag

Near(a, b) == \A id \in Ids : CNear(a[id], b[id], RLit("1e-11"))
\* inferred constituents satisfy their relation with the final values
Relation == done => \A k \in 1..NRel : RelId[k] \in flag =>
  CNear(v[RelId[k]], Combine(RelTerms[k], v, 1), RLit("1e-11"))
Idempotent == done => Infer(v, flag) = v
Untouched == \A id \in Ids \ flag :
  \E k \in 1..Samples : v[id] = Value(k, id)
MajorsAreNotRelated == Majors \cap Related = {}
\* every constituent inferable by default has a relation, and conversely
DefaultsAreRelated == DefaultFlag = Related
Additive ==
  ~done => LET x == Sample(Samples + 1)
               sum == [id \in Ids |-> CAdd(v[id], x[id])]
               i == Infer(v, flag)
               j == Infer(x, flag)
           IN Near(Infer(sum, flag), [id \in Ids |-> CAdd(i[id], j[id])])
\* the relations only use majors and 2N2, and never a later one
Ordered == \A k \in 1..NRel : \A j \in 1..Len(RelTerms[k]) :
  \/ RelTerms[k][j][2] \in Majors
  \/ \E m \in 1..(k - 1) : RelId[m] = RelTerms[k][j][2]
\* diurnal from diurnal, semi-diurnal from semi-diurnal
SameSpecies == \A k \in 1..NRel : \A j \in 1..Len(RelTerms[k]) :
  W(RelId[k]).T = W(RelTerms[k][j][2]).T
=============================================================================
