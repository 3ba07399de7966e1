-------------------------------- MODULE Mesh ---------------------------------
(***************************************************************************)
(* Triangular meshes on the sphere and the finite elements they carry.     *)
(*                                                                         *)
(* mesh: [lon, lat: sequences of degrees, tri: sequence of triples of      *)
(* vertices, numbered from 0].  A position belongs to a triangle if its    *)
(* barycentric coordinates, in the plane (longitude unwrapped next to the  *)
(* position, latitude), are not negative.                                  *)
(***************************************************************************)
EXTENDS Axis

\* Corner k of triangle t, its longitude next to x
NextTo(lon, x) == x \oplus Wrapped180(lon \ominus x)
Corner(m, t, k, x) == LET v == m.tri[t][k] + 1
                      IN <<NextTo(m.lon[v], x), m.lat[v]>>
Tri(m, t, x) == [k \in 1..3 |-> Corner(m, t, k, x)]
Cross(o, a, b) == ((a[1] \ominus o[1]) \otimes (b[2] \ominus o[2])) \ominus
                  ((a[2] \ominus o[2]) \otimes (b[1] \ominus o[1]))
\* Barycentric coordinates of p; c: corners
Bary(c, p) ==
  LET area == Cross(c[1], c[2], c[3])
  IN <<Cross(p, c[2], c[3]) \oslash area, Cross(p, c[3], c[1]) \oslash area,
       Cross(p, c[1], c[2]) \oslash area>>
\* Smallest barycentric coordinate: >= 0 inside of the triangle
Depth(m, t, p) == LET b == Bary(Tri(m, t, p[1]), p)
                  IN RMin(b[1], RMin(b[2], b[3]))
Depths(m, p) == [t \in 1..Len(m.tri) |-> Depth(m, t, p)]

(***************************************************************************)
(* Distances, in meters                                                    *)
(***************************************************************************)
Ecef(lon, lat) ==
  LET a == RLit("6378137.0")
      e2 == Sq(RLit("0.08181919092890632683"))
      x == Rad(lon)
      y == Rad(lat)
      chi == a \oslash RSqrt(One \ominus (e2 \otimes Sq(RSin(y))))
  IN <<chi \otimes RCos(y) \otimes RCos(x), chi \otimes RCos(y) \otimes RSin(x),
       chi \otimes (One \ominus e2) \otimes RSin(y)>>
Chord(a, b) == RSqrt(Sq(a[1] \ominus b[1]) \oplus Sq(a[2] \ominus b[2])
                     \oplus Sq(a[3] \ominus b[3]))
\* chords to the vertices
Chords(m, p) == LET e == Ecef(p[1], p[2])
                IN [v \in 1..Len(m.lon) |-> Chord(Ecef(m.lon[v], m.lat[v]), e)]
RECURSIVE RLeast(_, _)
RLeast(s, n) == IF n = 1 THEN s[1] ELSE RMin(RLeast(s, n - 1), s[n])
Least(s) == RLeast(s, Len(s))

\* in the plane tangent at p
Local(p, q) ==
  LET k == RLit("111195")
  IN <<k \otimes RCos(Rad(p[2])) \otimes (NextTo(q[1], p[1]) \ominus p[1]),
       k \otimes (q[2] \ominus p[2])>>
Norm(v) == RSqrt(Sq(v[1]) \oplus Sq(v[2]))
\* from the origin to segment a b
ToSegment(a, b) ==
  LET d == <<b[1] \ominus a[1], b[2] \ominus a[2]>>
      n == Sq(d[1]) \oplus Sq(d[2])
      t == RMax(Zero, RMin(One, RNeg((a[1] \otimes d[1]) \oplus
                                     (a[2] \otimes d[2])) \oslash n))
  IN Norm(<<a[1] \oplus (t \otimes d[1]), a[2] \oplus (t \otimes d[2])>>)
\* from p, that lies outside, to triangle t
ToTriangle(m, t, p) ==
  LET c == Tri(m, t, p[1])
      a == Local(p, c[1])
      b == Local(p, c[2])
      d == Local(p, c[3])
  IN RMin(ToSegment(a, b), RMin(ToSegment(b, d), ToSegment(d, a)))

(***************************************************************************)
(* Elements                                                                *)
(***************************************************************************)
\* Shape functions of the degrees of freedom, in the order of the codes:
\* degree 1: v1, v2, v3; degree 2: v1, m12, v2, m23, v3, m31
Shape(n, b) ==
  LET v(k) == b[k] \otimes ((Two \otimes b[k]) \ominus One)
      m(j, k) == RInt(4) \otimes b[j] \otimes b[k]
  IN IF n = 1 THEN <<b[1], b[2], b[3]>>
     ELSE <<v(1), m(1, 2), v(2), m(2, 3), v(3), m(3, 1)>>
RECURSIVE Dot(_, _, _)
Dot(w, z, k) == IF k = 0 THEN CZero
                ELSE CAdd(Dot(w, z, k - 1), CScale(w[k], z[k]))
Polynomial(n, b, z) == Dot(Shape(n, b), z, 3 * n)
=============================================================================
