--------------------------- MODULE EquilibriumModel ---------------------------
(***************************************************************************)
(* The spectrum of the equilibrium tide (C05) against the arguments of the *)
(* constituents, and what any sequence of declarations removes from it.    *)
(***************************************************************************)
EXTENDS Equilibrium, FiniteSets, TLC, Json
CONSTANT MaxOps

Removable == {IdOf(x) : x \in {w \in LineWaves : w # ""}} \ {IdOf("M0")}
VARIABLES left, declared, hist
vars == <<left, declared, hist>>
All == 1..Len(Lines)
Init == left = All /\ declared = {} /\ hist = <<>>
\* the code clears the rows of each wave that is dynamic
Disable(set) ==
  /\ left' = {i \in left : Lines[i].w = "" \/ IdOf(Lines[i].w) \notin set}
  /\ declared' = declared \cup set
  /\ hist' = Append(hist, set)
Next == /\ Len(hist) < MaxOps
        /\ \E x, y \in Removable : Disable({x, y})

Exactly == left = {i \in All : Lines[i].w = "" \/
                                 IdOf(Lines[i].w) \notin declared}
\* Principal lines: one per wave but M0, with the argument of the wave
Argument(w) == <<w.s, w.h, w.p, 0, w.p1>>
Neg(k) == [i \in 1..5 |-> -k[i]]
PrincipalOf(id) == {i \in All : Lines[i].w = NameOf(id) /\ Principal(Lines[i])}
OnePrincipal ==
  \A id \in Removable :
    /\ Cardinality(PrincipalOf(id)) = 1
    /\ \A i \in PrincipalOf(id) :
         Lines[i].k \in {Argument(W(id)), Neg(Argument(W(id)))}
\* The others of the group differ by N' only
SameGroup ==
  \A i \in All : Lines[i].w \notin {"", "M0"} =>
    \A j \in PrincipalOf(IdOf(Lines[i].w)) :
      \A c \in {1, 2, 3, 5} : Lines[i].k[c] = Lines[j].k[c]
\* and are smaller than it
Dominant ==
  \A i \in All : Lines[i].w \notin {"", "M0"} =>
    \A j \in PrincipalOf(IdOf(Lines[i].w)) :
      RAbs(Lines[i].c) \preceq RAbs(Lines[j].c)
Distinct == \A i, j \in All : i # j => Lines[i].k # Lines[j].k
LongOnly == \A id \in Removable : W(id).long /\ W(id).T = 0
Emit == Len(hist) < MaxOps \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
