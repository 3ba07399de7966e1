-------------------------------- MODULE Grid ---------------------------------
(***************************************************************************)
(* Bilinear interpolation on a grid with masked nodes.                     *)
(*                                                                         *)
(* A node is a complex number, undefined if a part of it is not finite.    *)
(* corners: <<z11, z12, z21, z22>> of a cell, (t, u) in [0,1]^2 the place  *)
(* in it.                                                                  *)
(***************************************************************************)
EXTENDS Axis

Defined(z) == RIsFinite(z[1]) /\ RIsFinite(z[2])
Weights(t, u) ==
  <<(One \ominus t) \otimes (One \ominus u), (One \ominus t) \otimes u,
    t \otimes (One \ominus u), t \otimes u>>
DefinedOf(corners) == {k \in 1..4 : Defined(corners[k])}
RECURSIVE WSum(_, _)
WSum(w, ks) == IF ks = {} THEN Zero
               ELSE LET k == CHOOSE j \in ks : TRUE
                    IN w[k] \oplus WSum(w, ks \ {k})
RECURSIVE ZSum(_, _, _)
ZSum(w, z, ks) == IF ks = {} THEN CZero
                  ELSE LET k == CHOOSE j \in ks : TRUE
                       IN CAdd(CScale(w[k], z[k]), ZSum(w, z, ks \ {k}))
\* <<defined, value, number of nodes used>>
Bilinear(corners, t, u) ==
  LET ks == DefinedOf(corners)
      w == Weights(t, u)
      sw == WSum(w, ks)
  IN IF ks = {} \/ ~(RAbs(sw) \succ Zero) THEN <<FALSE, <<NaN, NaN>>, 0>>
     ELSE <<TRUE, CScale(One \oslash sw, ZSum(w, corners, ks)),
            Cardinality(ks)>>
\* Quality of a position whose constituents used at least n nodes
QualityOf(n) == n

\* Place of x in cell c of axis ax, in [0, 1]
Place(ax, c, x, slack) ==
  LET t == Into(ax, c, x, slack) \oslash Width(ax)
  IN RMax(Zero, RMin(One, t))
\* Node (i, j) in the storage order
NodeIndex(i, j, nlon, nlat, major) ==
  IF major THEN i * nlat + j + 1 ELSE j * nlon + i + 1
Corners(data, cx, cy, lon, lat, major) ==
  LET z(i, j) == data[NodeIndex(i, j, lon.n, lat.n, major)]
  IN <<z(cx, cy), z(cx, Next1(lat, cy)), z(Next1(lon, cx), cy),
       z(Next1(lon, cx), Next1(lat, cy))>>
=============================================================================
