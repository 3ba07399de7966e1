------------------------------ MODULE NamesModel ------------------------------
(***************************************************************************)
(* Names of constituents (C08): unambiguous even without regard to case;   *)
(* every table of at most MaxHeld constituents holds what was asked for;   *)
(* the frequencies of the constituents (C16).                              *)
(***************************************************************************)
EXTENDS Tables, TLC, Json
CONSTANTS Pool, MaxHeld

VARIABLES asked
Init == asked \in {x \in SUBSET Pool : Cardinality(x) <= MaxHeld}
Next == FALSE /\ asked' = asked

RECURSIVE SeqOf(_)
SeqOf(x) == IF x = {} THEN <<>>
            ELSE LET m == CHOOSE i \in x : \A j \in x : i <= j
                 IN <<m>> \o SeqOf(x \ {m})
T == NewTable(SeqOf(asked))
Unambiguous == Cardinality({FoldedNames[id] : id \in Ids}) = Cardinality(Ids)
RoundTrip == \A id \in Ids : Parse(NameOf(id)) = id /\
                             Parse(FoldedNames[id]) = id
HoldsAsked == Set(T.order) = asked /\ Len(T.order) = Cardinality(asked) /\
              DOMAIN T.v = asked
Ascending == \A i \in 1..(Len(T.order) - 1) : T.order[i] < T.order[i + 1]
\* selection grows with the duration
Monotone == \A d \in {1, 10, 30, 182, 366, 3650, 9000} :
  Selected(RInt(86400 * d), Two) \subseteq Selected(RInt(86400 * (d + 1)), Two)
ShortFirst == \A d \in {1, 15, 30, 366} :
  LET sel == Selected(RInt(86400 * d), Two)
      fr == [id \in Ids |-> Freq(W(id))]
  IN \A y \in sel, x \in Ids \ sel : ~(fr[y] \prec fr[x])
Emit == PrintT("BEH " \o ToJson(SeqOf(asked)))
=============================================================================
