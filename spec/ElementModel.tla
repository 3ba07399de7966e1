---------------------------- MODULE ElementModel -----------------------------
(***************************************************************************)
(* The design of the finite elements (C12) in exact arithmetic: two        *)
(* triangles A B C and D C B (they share the edge B C), their vertices     *)
(* numbered in any order, degree 1 or 2, one degree of freedom set to 1    *)
(* (the value is linear in the data).  Barycentric coordinates are         *)
(* multiples of 1 / M; values are multiplied by M * M.                     *)
(*                                                                         *)
(* Variant "fixed": the middle of the first edge is always that of the     *)
(* first and the third vertex.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, Variant

VARIABLES n, order1, order2, dof, done
vars == <<n, order1, order2, dof, done>>

Perms(S) == {f \in [1..3 -> S] : \A i, j \in 1..3 : i # j => f[i] # f[j]}
T1 == {"A", "B", "C"}
T2 == {"B", "C", "D"}
Edges == {{"A", "B"}, {"B", "C"}, {"A", "C"}, {"B", "D"}, {"C", "D"}}
Dofs == {{v} : v \in T1 \cup T2} \cup (IF n = 2 THEN Edges ELSE {})
Init == /\ n \in {1, 2} /\ order1 \in Perms(T1) /\ order2 \in Perms(T2)
        /\ dof = {} /\ done = FALSE
Next == /\ ~done
        /\ dof' \in Dofs
        /\ done' = TRUE /\ UNCHANGED <<n, order1, order2>>

\* The codes of a triangle: what is at each degree of freedom
Codes(o) ==
  IF n = 1 THEN <<{o[1]}, {o[2]}, {o[3]}>>
  ELSE IF Variant = "fixed"
  THEN <<{o[1]}, {o[1], o[3]}, {o[2]}, {o[2], o[3]}, {o[3]}, {o[1], o[2]}>>
  ELSE <<{o[1]}, {o[1], o[2]}, {o[2]}, {o[2], o[3]}, {o[3]}, {o[3], o[1]}>>
\* shape functions times M * M, b: coordinates times M
Shape(b) ==
  LET v(k) == b[k] * (2 * b[k] - M)
      m(j, k) == 4 * b[j] * b[k]
  IN IF n = 1 THEN [k \in 1..3 |-> M * b[k]]
     ELSE <<v(1), m(1, 2), v(2), m(2, 3), v(3), m(3, 1)>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Value(o, b) ==
  LET c == Codes(o)
      w == Shape(b)
  IN Sum([k \in 1..Len(w) |-> IF c[k] = dof THEN w[k] ELSE 0], Len(w))
Barys == {b \in [1..3 -> 0..M] : b[1] + b[2] + b[3] = M}
\* coordinates with respect to the numbering o from those by vertex
By(o, w) == [k \in 1..3 |-> w[o[k]]]

\* The shape functions take 1 at their own degree of freedom only
Nodal ==
  done => \A o \in {order1, order2} :
    LET vs == {o[k] : k \in 1..3}
        own == IF n = 1 THEN {{v} : v \in vs}
               ELSE {{v} : v \in vs} \cup {{v, w} : v, w \in vs}
    IN \A d \in own :
         Value(o, By(o, [v \in vs |-> IF v \notin d THEN 0
                                      ELSE M \div Cardinality(d)]))
         = IF d = dof THEN M * M ELSE 0
\* They sum to 1
Unity == done => \A b \in Barys : Sum(Shape(b), Len(Shape(b))) = M * M
\* The value does not depend on the numbering
SameForAll ==
  done => \A p \in Perms(T1), b \in Barys :
            LET w == [v \in T1 |-> b[CHOOSE k \in 1..3 : order1[k] = v]]
            IN Value(order1, b) = Value(p, By(p, w))
\* Both triangles give the same value along the edge they share
Continuous ==
  done => \A t \in 0..M :
            LET w == [v \in {"A", "B", "C", "D"} |->
                        IF v = "B" THEN t ELSE IF v = "C" THEN M - t ELSE 0]
            IN Value(order1, By(order1, w)) = Value(order2, By(order2, w))
Emit == dof = {} => PrintT("BEH " \o ToJson([n |-> n, o1 |-> order1,
                                             o2 |-> order2]))
=============================================================================
