-------------------------------- MODULE Names ---------------------------------
(***************************************************************************)
(* Names and identifiers of the constituents.                              *)
(***************************************************************************)
EXTENDS Constituents

\* Names are parsed without regard to case.
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |->
              LET i == CHOOSE k \in 1..26 : SubSeq(Upper, k, k) = c
              IN SubSeq(Lower, i, i)]
Fold1(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
RECURSIVE FoldFrom(_, _)
FoldFrom(str, i) == IF i > Len(str) THEN ""
                    ELSE Fold1(SubSeq(str, i, i)) \o FoldFrom(str, i + 1)
Fold(str) == FoldFrom(str, 1)
FoldedNames == [id \in Ids |-> Fold(NameOf(id))]
Unknown == -1
Parse(str) == LET f == Fold(str)
                  m == {id \in Ids : FoldedNames[id] = f}
              IN IF m = {} THEN Unknown ELSE CHOOSE id \in m : TRUE
=============================================================================
