------------------------------ MODULE BatchModel ------------------------------
(***************************************************************************)
(* A batch evaluation (C01): the requests are shared out between workers;  *)
(* each worker keeps, from one request to the next, the angles of the last *)
(* date, the last triangle found and the values of the last position.      *)
(* Whatever the batch, the shares and the interleaving, each result is the *)
(* one of the request alone.                                               *)
(*                                                                         *)
(* Variant "ok" is the design; the others are mistakes that the model must *)
(* be able to see.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxN, MaxThreads, Variant

Dates == {<<1, 1>>, <<1, 2>>, <<2, 1>>}       \* <<date, leap seconds>>
\* positions: P, Q lie in triangles 1 and 2, E on their common edge, U
\* outside
Positions == {"P", "Q", "U"}
Covers(t, p) == (t = 1 /\ p = "P") \/ (t = 2 /\ p = "Q")
Find(p) == CASE p = "P" -> 1 [] p = "Q" -> 2 [] OTHER -> 0
Requests == Dates \X Positions
Pure(r) == <<r[1], r[2], IF Find(r[2]) = 0 THEN "undefined" ELSE "ok">>

VARIABLES batch, threads, w, result
vars == <<batch, threads, w, result>>

RECURSIVE Batches(_)
Batches(n) == IF n = 0 THEN {<<>>}
              ELSE {Append(b, r) : b \in Batches(n - 1), r \in Requests}
Shares(n, k) == LET m == IF k > n THEN n ELSE k
                IN IF m <= 1 THEN << <<0, n>> >>
                   ELSE [i \in 1..m |->
                          <<(i - 1) * (n \div m),
                            IF i = m THEN n ELSE i * (n \div m)>>]
Fresh(sh) == [next |-> sh[1], end |-> sh[2], angle |-> <<0, 0>>, tri |-> 0,
              value |-> "zero"]
Init == /\ batch \in UNION {Batches(n) : n \in 0..MaxN}
        /\ threads \in 1..MaxThreads
        /\ w = [i \in 1..Len(Shares(Len(batch), threads)) |->
                  Fresh(Shares(Len(batch), threads)[i])]
        /\ result = [i \in 1..Len(batch) |-> <<>>]

Step(i) ==
  /\ w[i].next < w[i].end
  /\ LET k == w[i].next + 1
         date == batch[k][1]
         pos == batch[k][2]
         hit == IF Variant = "leap" THEN w[i].angle[1] = date[1]
                ELSE w[i].angle = date
         angle == IF hit THEN w[i].angle ELSE date
         cached == IF Variant = "triangle" THEN w[i].tri # 0
                   ELSE Covers(w[i].tri, pos)
         tri == IF cached THEN w[i].tri ELSE Find(pos)
         value == IF tri = 0
                  THEN IF Variant = "stale" THEN w[i].value ELSE "U"
                  ELSE IF cached /\ Variant = "triangle" THEN w[i].value
                  ELSE pos
     IN /\ result' = [result EXCEPT ![k] =
                        <<angle, value, IF tri = 0 THEN "undefined" ELSE "ok">>]
        /\ w' = [w EXCEPT ![i].next = k, ![i].angle = angle, ![i].tri = tri,
                          ![i].value = value]
  /\ UNCHANGED <<batch, threads>>
Next == \E i \in 1..Len(w) : Step(i)

Done == \A i \in 1..Len(w) : w[i].next = w[i].end
IsPure == Done => \A k \in 1..Len(batch) : result[k] = Pure(batch[k])
Emit == TLCGet("level") # 1 \/
        PrintT("BEH " \o ToJson([b |-> batch, t |-> threads]))
=============================================================================
