----------------------------- MODULE SerialModel ------------------------------
(***************************************************************************)
(* The design of saved and restored models (C13): every history of at most *)
(* Depth operations on two models and one saved state.  A model is its     *)
(* type, its constituents and its dynamic constituents; what it shows is a *)
(* function of them.                                                       *)
(*                                                                         *)
(* What an implementation keeps in a saved state is the constant Kept; the *)
(* invariant holds only if it is everything.  Variant "alias": the         *)
(* restored model shares its data with the saved state.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Variant

VARIABLES objs, kept, hist, ideal
vars == <<objs, kept, hist, ideal>>
Slots == {1, 2}
Ids == {"m", "r"}           \* a major constituent, another one
Nothing == [data |-> {}, dyn |-> {}]
None == <<>>
\* objs: what the implementation has; ideal: values, in the mind of the user
Init == /\ objs = [k \in Slots |-> Nothing]
        /\ ideal = [now |-> [k \in Slots |-> Nothing], saved |-> None]
        /\ kept = None /\ hist = <<>>
Do(op) == hist' = Append(hist, op) /\ Len(hist) < Depth
Alias == IF Variant = "alias" THEN Slots ELSE {}
Change(k, f(_)) ==
  /\ objs' = [objs EXCEPT ![k] = f(@)]
  /\ ideal' = [ideal EXCEPT !.now[k] = f(@)]
Add(k, id) == /\ Do(<<"add", k, id>>) /\ id \notin objs[k].data
              /\ Change(k, LAMBDA o : [o EXCEPT !.data = @ \cup {id}])
              /\ kept' = IF Variant = "alias" /\ kept # None /\ k = 2
                         THEN [kept EXCEPT !.data = @ \cup {id}] ELSE kept
Dyn(k) == /\ Do(<<"dyn", k>>) /\ objs[k].dyn = {}
          /\ Change(k, LAMBDA o : [o EXCEPT !.dyn = {"d"}])
          /\ UNCHANGED kept
Clear(k) == /\ Do(<<"clear", k>>) /\ objs[k] # Nothing
            /\ Change(k, LAMBDA o : Nothing)
            /\ UNCHANGED kept
Save(k) == /\ Do(<<"save", k>>)
           /\ kept' = IF Variant = "no dynamic"
                      THEN [objs[k] EXCEPT !.dyn = {}] ELSE objs[k]
           /\ ideal' = [ideal EXCEPT !.saved = ideal.now[k]]
           /\ UNCHANGED objs
Load(k) == /\ Do(<<"load", k>>) /\ kept # None
           /\ objs' = [objs EXCEPT ![k] = kept]
           /\ ideal' = [ideal EXCEPT !.now[k] = ideal.saved]
           /\ UNCHANGED kept
Next == \/ \E k \in Slots : Dyn(k) \/ Clear(k) \/ Save(k) \/ Load(k) \/
                            \E id \in Ids : Add(k, id)
Same == objs = ideal.now
\* Histories worth replaying: they restore, at the latest before the last
\* operation
Emit == (Len(hist) = Depth /\ \E i \in 1..Depth : hist[i][1] = "load") =>
        PrintT("BEH " \o ToJson(hist))
=============================================================================
