----------------------------- MODULE InputsModel ------------------------------
(***************************************************************************)
(* An entry point step by step (C18): the checks, one after the other,     *)
(* then the change of the object or the result.  The checks must add up to *)
(* Accepts for all sizes, and come first.  Variants are mistakes that the  *)
(* model must see: "half" does not make the last check, "late" changes the *)
(* object before the last check, "bound" accepts the first number out of   *)
(* range, "product" compares only one of the dimensions.                   *)
(***************************************************************************)
EXTENDS Inputs, TLC, Json
CONSTANTS Kinds, Max, Variant
VARIABLES req, step, obj, out
vars == <<req, step, obj, out>>

S == 0..Max
Codes == {-1, 0, 1}
Requests(k) ==
  CASE k = "evaluate" -> [k : {k}, n : S \X S \X S \X S]
    [] k = "series" -> [k : {k}, n : S \X S \X S, held : 1..Max]
    [] k = "mods" -> [k : {k}, n : S \X S]
    [] k = "map" -> [k : {k}, n : S \X S, held : 1..Max]
    [] k = "harmonic" -> [k : {k}, n : {<<h, a, b, c, d>> : h \in S,
                          a \in 1..2, b \in S, c \in 1..2, d \in S}]
    [] k = "cart" -> [k : {k}, n : {<<a, b, c>> : a \in 2..Max, b \in 2..Max,
                      c \in 0..(Max * Max + 2)}]
    [] k = "lgp" -> [k : {k}, n : {<<a, b>> : a \in 1..(Max + 3),
                     b \in 0..(Max + 5)}]
    [] k = "mesh" ->
         [k : {k}, n : {<<a, b>> : a \in 3..4, b \in 2..5},
          tri : {<<>>} \cup ((-1..4) \X (0..4) \X (0..5)) \cup
                {<<0, 1, 2, x, y, z>> : x \in -1..4, y \in 0..4, z \in 1..2}]
    [] k = "codes" ->
         [k : {k}, n : {<<a, b>> : a \in 1..2, b \in 0..3},
          code : {<<>>} \cup {<<p, x>> : p \in 0..17, x \in {-1, 0, 7}}]
    [] k = "names" ->
         [k : {k}, known : {<<>>} \cup ({TRUE, FALSE} \X {TRUE, FALSE}) \cup
                           ({TRUE, FALSE} \X {TRUE, FALSE} \X {TRUE, FALSE})]

\* The checks the entry points make, in turn
Tests(r) ==
  CASE r.k = "evaluate" -> <<r.n[1] = r.n[2], r.n[1] = r.n[3], r.n[1] = r.n[4]>>
    [] r.k = "series" -> <<r.n[1] = r.n[2], r.n[3] = r.held>>
    [] r.k = "mods" -> <<r.n[1] = r.n[2]>>
    [] r.k = "map" -> <<r.n[1] = r.held>>
    [] r.k = "harmonic" -> <<r.n[2] = r.n[4] /\ r.n[3] = r.n[5],
                             r.n[1] = r.n[3]>>
    [] r.k = "cart" -> <<IF Variant = "product" THEN r.n[3] % r.n[1] = 0
                         ELSE r.n[3] = r.n[1] * r.n[2]>>
    [] r.k = "lgp" -> <<IF Variant = "bound" THEN r.n[2] >= r.n[1]
                        ELSE r.n[2] = r.n[1]>>
    [] r.k = "mesh" ->
         <<r.n[1] = r.n[2], r.tri # <<>>,
           \A i \in 1..Len(r.tri) : r.tri[i] >= 0,
           \A i \in 1..Len(r.tri) :
             IF Variant = "bound" THEN r.tri[i] <= r.n[1]
             ELSE r.tri[i] < r.n[1]>>
    [] r.k = "codes" -> <<r.n[1] = r.n[2],
                          \A i \in 1..Len(r.code) : r.code[i] >= 0>>
    [] r.k = "names" -> [i \in 1..Len(r.known) |-> r.known[i]]
Mine(r) == LET t == Tests(r) IN
           IF Variant = "half" /\ Len(t) > 1 THEN SubSeq(t, 1, Len(t) - 1)
           ELSE t
Unset == [k |-> "none"]
Init == req = Unset /\ step = 0 /\ obj = "before" /\ out = "none"
Ask == /\ req = Unset
       /\ \E k \in Kinds : req' \in Requests(k)
       /\ step' = 1 /\ UNCHANGED <<obj, out>>
Test ==
  /\ req # Unset /\ out = "none"
  /\ LET t == Mine(req) IN
     IF step > Len(t)
     THEN obj' = "after" /\ out' = "answer" /\ UNCHANGED step
     ELSE IF Variant = "late" /\ step = Len(t) /\ obj = "before"
     THEN obj' = "after" /\ UNCHANGED <<out, step>>
     ELSE IF t[step] THEN step' = step + 1 /\ UNCHANGED <<obj, out>>
     ELSE out' = "error" /\ UNCHANGED <<obj, step>>
  /\ UNCHANGED req
Next == Ask \/ Test
Right == out # "none" => (out = "answer") = Accepts(req)
Untouched == out = "error" => obj = "before"
Emit == step = 1 /\ out = "none" /\ obj = "before" =>
          PrintT("BEH " \o ToJson(req))
=============================================================================
