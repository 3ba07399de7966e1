------------------------------- MODULE Inputs ---------------------------------
(***************************************************************************)
(* Which requests are consistent (C18).  A request is the name of an entry *)
(* point and the sizes (or the numbers) that must agree.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
AllEqual(q) == \A i \in 1..Len(q) : q[i] = q[1]
\* numbers of a mesh of n vertices
Vertices(q, n) == \A i \in 1..Len(q) : q[i] \in 0..(n - 1)

Accepts(r) ==
  CASE r.k = "evaluate" ->        \* dates, leap seconds, longitudes, latitudes
         AllEqual(r.n)
    [] r.k = "series" ->          \* dates, leap seconds, constants
         r.n[1] = r.n[2] /\ r.n[3] = r.held
    [] r.k = "mods" ->            \* dates, leap seconds
         r.n[1] = r.n[2]
    [] r.k = "map" ->             \* rows, points
         r.n[1] = r.held
    [] r.k = "harmonic" ->        \* series, shape of f, shape of vu
         <<r.n[2], r.n[3]>> = <<r.n[4], r.n[5]>> /\ r.n[1] = r.n[3]
    [] r.k = "cart" ->            \* values for a grid
         r.n[3] = r.n[1] * r.n[2]
    [] r.k = "lgp" ->             \* values for degrees of freedom
         r.n[2] = r.n[1]
    [] r.k = "mesh" ->            \* longitudes, latitudes, connectivity
         r.n[1] = r.n[2] /\ r.tri # <<>> /\ Vertices(r.tri, r.n[1])
    [] r.k = "codes" ->           \* triangles, rows of codes
         r.n[1] = r.n[2] /\ \A i \in 1..Len(r.code) : r.code[i] >= 0
    [] r.k = "names" ->           \* all of them known
         \A i \in 1..Len(r.known) : r.known[i]
=============================================================================
