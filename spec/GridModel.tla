------------------------------ MODULE GridModel -------------------------------
(***************************************************************************)
(* Two neighbouring cells of a grid (3 longitudes, 2 latitudes), every     *)
(* mask of the 6 nodes, some values, positions in quarters of a cell, both *)
(* directions of both axes and both storage orders: what a user is owed    *)
(* by the bilinear interpolation (C10).                                    *)
(* Variant "ok" is the design; the others are mistakes to be seen.         *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANT Variant

Nodes == {0, 1, 2} \X {0, 1}
Fields == { [p \in Nodes |-> 1], [p \in Nodes |-> 2 * p[1] - 3 * p[2] + 1],
            [p \in Nodes |-> 5 * p[1] * p[2] - p[1]],
            [p \in Nodes |-> IF p = <<1, 0>> THEN 7 ELSE p[2]] }

VARIABLES mask, field, x, y, rx, ry, major
vars == <<mask, field, x, y, rx, ry, major>>
Init == /\ mask \in SUBSET Nodes /\ field \in Fields
        /\ rx \in BOOLEAN /\ ry \in BOOLEAN /\ major \in BOOLEAN
        /\ x = -1 /\ y = -1
Next == /\ x = -1
        /\ x' \in 0..8 /\ y' \in 0..4
        /\ UNCHANGED <<mask, field, rx, ry, major>>

AxisX(rev) == [n |-> 3, start |-> RInt(IF rev THEN 2 ELSE 0),
               step |-> RInt(IF rev THEN -1 ELSE 1), circ |-> FALSE]
AxisY(rev) == [n |-> 2, start |-> RInt(IF rev THEN 1 ELSE 0),
               step |-> RInt(IF rev THEN -1 ELSE 1), circ |-> FALSE]
Node(p) == IF p \in mask THEN <<NaN, Zero>> ELSE <<RInt(field[p]), Zero>>
\* data of the grid, as stored
Data(rxx, ryy, maj) ==
  [k \in 1..6 |->
     LET p == CHOOSE q \in Nodes :
                NodeIndex(IF rxx THEN 2 - q[1] ELSE q[1],
                          IF ryy THEN 1 - q[2] ELSE q[2], 3, 2,
                          IF Variant = "order" THEN TRUE ELSE maj) = k
     IN Node(p)]
Slk == RLit("1e-12")
X == RInt(x) \otimes RLit("0.25")
Y == RInt(y) \otimes RLit("0.25")
At2(rxx, ryy, maj, c, d) ==
  LET lon == AxisX(rxx)
      lat == AxisY(ryy)
      z == Corners(Data(rxx, ryy, maj), c, d, lon, lat, maj)
      t == Place(lon, c, X, Slk)
      u == Place(lat, d, Y, Slk)
  IN IF Variant = "swapped" THEN Bilinear(<<z[1], z[3], z[2], z[4]>>, t, u)
     ELSE IF Variant = "no renormalisation"
     THEN LET b == Bilinear([k \in 1..4 |-> IF Defined(z[k]) THEN z[k]
                                            ELSE CZero], t, u)
          IN IF DefinedOf(z) = {} THEN <<FALSE, <<NaN, NaN>>, 0>>
             ELSE <<TRUE, b[2], Cardinality(DefinedOf(z))>>
     ELSE Bilinear(z, t, u)
\* results, from each cell that contains the position
All(rxx, ryy, maj) == {At2(rxx, ryy, maj, c, d) : c \in Cells(AxisX(rxx), X, Slk),
                                        d \in Cells(AxisY(ryy), Y, Slk)}
Asked == x # -1
R == All(rx, ry, major)
\* direction of the axes and storage order do not matter
SameEverywhere == Asked =>
  \A r \in R : \E q \in All(FALSE, FALSE, TRUE) :
    r[1] = q[1] /\ r[3] = q[3] /\ CNear(r[2], q[2], RLit("1e-12"))
\* whichever cell is used, where both define it
Continuous == Asked =>
  \A r, q \in R : r[1] /\ q[1] => CNear(r[2], q[2], RLit("1e-12"))
Around == {p \in Nodes : LET a == 4 * p[1] - x
                             b == 4 * p[2] - y
                         IN a > -4 /\ a < 4 /\ b > -4 /\ b < 4}
ExactAtNodes == (Asked /\ x % 4 = 0 /\ y % 4 = 0) =>
  LET p == <<x \div 4, y \div 4>> IN
  \A r \in R : IF p \in mask THEN ~r[1]
               ELSE r[1] /\ REq(r[2][1], RInt(field[p]))
Bounded == Asked =>
  \A r \in R : r[1] =>
    /\ \E p \in Around \ mask : ~(r[2][1] \prec RInt(field[p]) \ominus Slk)
    /\ \E p \in Around \ mask : ~(r[2][1] \succ RInt(field[p]) \oplus Slk)
\* where all the nodes are defined the four of them are counted
Quality == Asked =>
  \A r \in R : /\ r[1] = (r[3] > 0)
               /\ (r[3] = 4 \/ mask # {})
               /\ (Around \subseteq mask => ~r[1])
Owed == SameEverywhere /\ Continuous /\ ExactAtNodes /\ Bounded /\ Quality
Emit == Asked \/ field # [p \in Nodes |-> 1] \/
  PrintT("BEH " \o ToJson([m |-> {2 * p[1] + p[2] : p \in mask}, rx |-> rx,
                           ry |-> ry, major |-> major]))
=============================================================================
