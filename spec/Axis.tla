-------------------------------- MODULE Axis ---------------------------------
(***************************************************************************)
(* A regular axis: n points start + i*step (i in 0..n-1), a circle if the  *)
(* n steps make a full turn of 360 degrees.                                *)
(*                                                                         *)
(* Two descriptions of the lookups.  The geometric one (IsNearest, Cells)  *)
(* says what a user is owed; the computed one (Nearest, Frame) is the      *)
(* design of the library.  AxisModel checks that the second fulfils the    *)
(* first; recorded lookups are judged with the first.                      *)
(***************************************************************************)
EXTENDS Reals64, FiniteSets

Turn == RInt(360)

(***************************************************************************)
(* Building an axis from points                                            *)
(***************************************************************************)
Wrapped180(x) == LET y == RMod(x, Turn)
                 IN IF y \prec RInt(180) THEN y ELSE y \ominus Turn
Monotone(p) ==
  \/ \A i \in 1..(Len(p) - 1) : p[i] \prec p[i + 1]
  \/ \A i \in 1..(Len(p) - 1) : p[i] \succ p[i + 1]
\* Longitudes given across a wrap are unwrapped by the shortest way
RECURSIVE Unwrap(_, _)
Unwrap(p, k) ==
  IF k = 1 THEN <<p[1]>>
  ELSE LET q == Unwrap(p, k - 1)
       IN Append(q, q[k - 1] \oplus Wrapped180(p[k] \ominus p[k - 1]))
Points(p, circular) == IF circular /\ ~Monotone(p) THEN Unwrap(p, Len(p)) ELSE p

MeanStep(p) == (p[Len(p)] \ominus p[1]) \oslash RInt(Len(p) - 1)
\* Largest difference between a step and the mean step
Unevenness(p) ==
  LET d(i) == RAbs((p[i + 1] \ominus p[i]) \ominus MeanStep(p))
      i == CHOOSE j \in 1..(Len(p) - 1) :
             \A k \in 1..(Len(p) - 1) : ~(d(k) \succ d(j))
  IN d(i)
Finite(p) == \A i \in 1..Len(p) : RIsFinite(p[i])

\* What may become of the points: "refused", "axis", or either (between the
\* tolerances)
Fate(p, circular) ==
  IF Len(p) < 2 \/ ~Finite(p) THEN {"refused"}
  ELSE LET q == Points(p, circular)
           h == MeanStep(q)
           u == Unevenness(q)
       IN IF RAbs(h) \preceq RLit("1e-7") \/ u \succ RLit("1e-4")
          THEN {"refused"}
          ELSE IF RAbs(h) \succ RLit("1e-5") /\ u \prec RLit("1e-8")
          THEN {"axis"} ELSE {"refused", "axis"}
\* What misses to make a full turn, or is too much
Defect(p) == LET q == Points(p, TRUE)
             IN RAbs(RAbs(MeanStep(q) \otimes RInt(Len(p))) \ominus Turn)
\* Whether the axis may be a circle, or may not: the tolerance is relative,
\* and rounding decides next to it
Circles(p, circular, eps) ==
  LET d == Defect(p)
      t == Turn \otimes eps
  IN IF ~circular THEN {FALSE}
     ELSE IF (d \oplus RLit("1e-9")) \preceq eps THEN {TRUE}
     ELSE IF d \succ (t \otimes RLit("1.5")) THEN {FALSE}
     ELSE IF d \prec (t \otimes RLit("0.9")) THEN {TRUE} ELSE BOOLEAN
AxisOf(p, circular, circ) ==
  LET q == Points(p, circular)
  IN [n |-> Len(p), start |-> q[1], step |-> MeanStep(q), circ |-> circ]

At(ax, i) == ax.start \oplus (RInt(i) \otimes ax.step)
Last(ax) == At(ax, ax.n - 1)
Ascending(ax) == ax.step \succ Zero
Lo(ax) == IF Ascending(ax) THEN ax.start ELSE Last(ax)
Hi(ax) == IF Ascending(ax) THEN Last(ax) ELSE ax.start
Width(ax) == RAbs(ax.step)

(***************************************************************************)
(* What a user is owed                                                     *)
(***************************************************************************)
Gap(ax, i, x) == IF ax.circ THEN RCircDist(x, At(ax, i), Turn)
                 ELSE RAbs(x \ominus At(ax, i))
\* rounding allowed on a coordinate x, and what the last cell of a circle that
\* does not close exactly has more or less than the others
Slack(ax, x) ==
  (Width(ax) \otimes RLit("1e-9")) \oplus
  (RAbs(x) \otimes RLit("1e-14")) \oplus
  (IF ax.circ THEN RAbs((Width(ax) \otimes RInt(ax.n)) \ominus Turn) ELSE Zero)
InBounds(ax, x) == Lo(ax) \preceq x /\ x \preceq Hi(ax)
IsNearest(ax, i, x) ==
  /\ i \in 0..(ax.n - 1)
  /\ Gap(ax, i, x) \preceq ((Width(ax) \otimes Half) \oplus Slack(ax, x))

\* Distance from x to the first point of cell c, in the direction of the axis
Into(ax, c, x, slack) ==
  LET d == IF Ascending(ax) THEN x \ominus At(ax, c) ELSE At(ax, c) \ominus x
  IN IF ax.circ
     THEN LET m == RMod(d, Turn)
          IN IF (Turn \ominus m) \preceq slack THEN m \ominus Turn ELSE m
     ELSE d
Next1(ax, c) == (c + 1) % ax.n
\* Cell c lies between points c and Next1(c)
AllCells(ax) == IF ax.circ THEN 0..(ax.n - 1) ELSE 0..(ax.n - 2)
\* Cells that contain x, borders included
Cells(ax, x, slack) ==
  IF ~RIsFinite(x) THEN {}
  ELSE {c \in AllCells(ax) :
          LET t == Into(ax, c, x, slack)
          IN RNeg(slack) \preceq t /\ t \preceq (Width(ax) \oplus slack)}
Framed(c, i0, i1, ax) == {i0, i1} = {c, Next1(ax, c)}

(***************************************************************************)
(* The design: round to the closest step, then look on which side x is     *)
(***************************************************************************)
Normal(ax, x) == IF ax.circ THEN Lo(ax) \oplus RMod(x \ominus Lo(ax), Turn)
                 ELSE x
RRound(x) == IF x \prec Zero THEN RNeg(RFloor(RNeg(x) \oplus Half))
             ELSE RFloor(x \oplus Half)
IMod(a, b) == LET m == a % b IN IF m < 0 THEN m + b ELSE m
Nearest(ax, x, bounded) ==
  LET k == RToInt(RRound((Normal(ax, x) \ominus ax.start) \oslash ax.step))
  IN IF RIsNaN(x) THEN -1
     ELSE IF ax.circ THEN IMod(k, ax.n)
     ELSE IF k < 0 THEN IF bounded THEN 0 ELSE -1
     ELSE IF k >= ax.n THEN IF bounded THEN ax.n - 1 ELSE -1
     ELSE k
None == <<-1, -1>>
Frame(ax, x) ==
  LET y == Normal(ax, x)
      i == Nearest(ax, y, FALSE)
      d == y \ominus At(ax, i)
      inside(a, b) == IF {a, b} \subseteq 0..(ax.n - 1) THEN <<a, b>> ELSE None
      side(k) == IF ax.circ THEN IMod(k, ax.n) ELSE k
  IN IF i = -1 THEN None
     ELSE IF ax.circ /\ RAbs(d) \succ Width(ax) THEN <<ax.n - 1, 0>>
     ELSE IF REq(d, Zero)
     THEN IF i = ax.n - 1 THEN <<i - 1, i>> ELSE <<i, i + 1>>
     ELSE IF d \prec Zero
     THEN inside(side(IF Ascending(ax) THEN i - 1 ELSE i + 1), i)
     ELSE inside(i, side(IF Ascending(ax) THEN i + 1 ELSE i - 1))
=============================================================================
