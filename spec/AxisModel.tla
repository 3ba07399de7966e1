------------------------------ MODULE AxisModel -------------------------------
(***************************************************************************)
(* Every small axis (starts, steps, sizes and directions in units of Unit  *)
(* degrees; longitudes possibly given across a wrap) and every coordinate  *)
(* in half units: the design of the lookups gives what a user is owed.     *)
(* Variant "ok" is the design; the others are mistakes to be seen.         *)
(***************************************************************************)
EXTENDS Axis, TLC, Json
CONSTANTS Turns, MaxN, Range, Variant

Unit == Turn \oslash RInt(Turns)      \* Turns units make a turn
D(k) == RInt(k) \otimes Unit
H(k) == (RInt(k) \otimes Unit) \otimes Half

VARIABLES start, step, n, circular, wrap, x
vars == <<start, step, n, circular, wrap, x>>

Unset == 1000
Steps == {k \in -Turns..Turns : k # 0}
Raw(i) == start + i * step
\* as stored in a file: longitudes in [-180, 180) or [0, 360) if wrap says so
Stored(i) == CASE wrap = "none" -> D(Raw(i))
               [] wrap = "west" -> Wrapped180(D(Raw(i)))
               [] wrap = "east" -> RMod(D(Raw(i)), Turn)
Given == [i \in 1..n |-> Stored(i - 1)]
Ax == AxisOf(Given, circular, TRUE \in Circles(Given, circular, RLit("1e-6")))

Init == /\ start \in -Range..Range
        /\ step \in Steps
        /\ n \in 2..MaxN
        /\ circular \in BOOLEAN
        /\ wrap \in IF circular THEN {"none", "west", "east"} ELSE {"none"}
        /\ (IF step < 0 THEN -step ELSE step) * n <= Turns
        \* two points half a turn apart have no direction
        /\ wrap # "none" => 2 * (IF step < 0 THEN -step ELSE step) < Turns
        /\ x = Unset
Next == /\ x = Unset
        /\ x' \in (-2 * Range)..(2 * Range)
        /\ UNCHANGED <<start, step, n, circular, wrap>>

X == H(x)
Slk == Slack(Ax, X)
SameAxis == x = Unset => \* the wrap is undone
  LET full == (IF step < 0 THEN -step ELSE step) * n = Turns
  IN /\ Fate(Given, circular) = {"axis"}
     /\ Monotone(Given) \/ REq(Ax.step, D(step))
     /\ \A i \in 0..(n - 1) : REq(Wrapped180(At(Ax, i)),
                                Wrapped180(D(Raw(i))))
     /\ Ax.circ = (circular /\ full)
FoundNearest ==
  LET i == IF Variant = "truncate"
           THEN RToInt(RFloor((Normal(Ax, X) \ominus Ax.start) \oslash Ax.step))
           ELSE IF Variant = "no modulo" /\ Ax.circ
           THEN LET k == RToInt(RRound((Normal(Ax, X) \ominus Ax.start)
                                       \oslash Ax.step))
                IN IF k >= Ax.n THEN -1 ELSE k
           ELSE Nearest(Ax, X, FALSE)
  IN IF Ax.circ \/ InBounds(Ax, X) THEN IsNearest(Ax, i, X)
     ELSE i = -1 \/ IsNearest(Ax, i, X)
FoundBounded ==
  LET i == Nearest(Ax, X, TRUE)
  IN \A k \in 0..(n - 1) : Gap(Ax, i, X) \preceq Gap(Ax, k, X)
FoundFrame ==
  LET f == IF Variant = "closing cell"
           THEN LET g == Frame([Ax EXCEPT !.circ = FALSE], Normal(Ax, X))
                IN g
           ELSE Frame(Ax, X)
      c == Cells(Ax, X, Slk)
  IN IF Ax.circ \/ InBounds(Ax, X)
     THEN c # {} /\ \E k \in c : Framed(k, f[1], f[2], Ax)
     ELSE f = None /\ c = {}
Shifted == Ax.circ =>
  Cells(Ax, X, Slk) = Cells(Ax, X \oplus Turn, Slk)
Lookups == x # Unset => FoundNearest /\ FoundBounded /\ FoundFrame /\ Shifted
Emit == x # Unset \/
  PrintT("BEH " \o ToJson([s |-> start, h |-> step, n |-> n, c |-> circular,
                           w |-> wrap]))
=============================================================================
