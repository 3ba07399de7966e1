------------------------------ MODULE MeshModel -------------------------------
(***************************************************************************)
(* The design of the search of a triangle (C11): among the triangles of    *)
(* the K closest (vertex, triangle) entries, the one that covers the       *)
(* position.  Every triangulation of a grid of 3 x 2 squares of side S     *)
(* whose two inner vertices are moved, every position on the unit lattice. *)
(*                                                                         *)
(* Entries at the same distance come in any order: a triangle is a sure    *)
(* candidate only if it is one in every order.  With Ties all the entries  *)
(* as close as the last one are taken.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, K, Ties, Jitter

NX == 3
NY == 2
VARIABLES diag, j1, j2, p
vars == <<diag, j1, j2, p>>
Cellss == (0..(NX - 1)) \X (0..(NY - 1))
Moves == {m \in (-Jitter..Jitter) \X (-Jitter..Jitter) :
            m[1] = 0 \/ m[2] = 0 \/ m[1] = m[2] \/ m[1] = -m[2]}
Nowhere == <<-1, -1>>
Init == /\ diag \in [Cellss -> BOOLEAN]
        /\ j1 \in Moves /\ j2 \in Moves
        /\ p = Nowhere
Next == /\ p = Nowhere
        /\ p' \in (0..(NX * S)) \X (0..(NY * S))
        /\ UNCHANGED <<diag, j1, j2>>

At(v) == IF v = <<1, 1>> THEN <<S + j1[1], S + j1[2]>>
         ELSE IF v = <<2, 1>> THEN <<2 * S + j2[1], S + j2[2]>>
         ELSE <<S * v[1], S * v[2]>>
TrianglesOf(c) ==
  LET a == c
      b == <<c[1] + 1, c[2]>>
      d == <<c[1] + 1, c[2] + 1>>
      e == <<c[1], c[2] + 1>>
  IN IF diag[c] THEN {<<a, b, d>>, <<a, d, e>>} ELSE {<<a, b, e>>, <<b, d, e>>}
Triangles == UNION {TrianglesOf(c) : c \in Cellss}
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Covers(t, q) == /\ Cross(At(t[1]), At(t[2]), q) >= 0
                /\ Cross(At(t[2]), At(t[3]), q) >= 0
                /\ Cross(At(t[3]), At(t[1]), q) >= 0
Proper == \A t \in Triangles : Cross(At(t[1]), At(t[2]), At(t[3])) > 0
D2(v, q) == LET w == At(v) IN (w[1] - q[1]) * (w[1] - q[1]) +
                              (w[2] - q[2]) * (w[2] - q[2])
Vertices == (0..NX) \X (0..NY)
Star(v) == {t \in Triangles : v \in {t[1], t[2], t[3]}}
\* number of entries closer than, resp. as close as d
Within(q, d) ==
  LET near == {v \in Vertices : D2(v, q) <= d}
      RECURSIVE Count(_)
      Count(vs) == IF vs = {} THEN 0
                   ELSE LET v == CHOOSE x \in vs : TRUE
                        IN Cardinality(Star(v)) + Count(vs \ {v})
  IN Count(near)
Distances(q) == {D2(v, q) : v \in Vertices}
\* distance of the K-th entry
Cut(q) == CHOOSE d \in Distances(q) :
            /\ Within(q, d) >= K
            /\ \A e \in Distances(q) : e < d => Within(q, e) < K
Sure(q) == LET c == Cut(q)
               \* entries at the last distance that are not all taken
               all == Ties \/ Within(q, c) = K
           IN UNION {Star(v) : v \in {w \in Vertices :
                                        IF all THEN D2(w, q) <= c
                                        ELSE D2(w, q) < c}}
Located == (p # Nowhere /\ Proper) => \E t \in Sure(p) : Covers(t, p)
\* positions for which the order of the vertices is certain
Plain == \A v, w \in Vertices : v # w => D2(v, p) # D2(w, p) \/ D2(v, p) > Cut(p)
LocatedPlain == (p # Nowhere /\ Proper /\ Plain) =>
                \E t \in Sure(p) : Covers(t, p)
\* The distance of the closest vertex decides of the positions outside
Emit == p # Nowhere \/ ~Proper \/ j1 # <<0, 0>> \/ j2 # <<0, 0>> \/
        PrintT("BEH " \o ToJson([c \in 1..(NX * NY) |->
                 diag[<<(c - 1) % NX, (c - 1) \div NX>>]]))
=============================================================================
