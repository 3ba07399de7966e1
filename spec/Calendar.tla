------------------------------- MODULE Calendar -------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar and the instants it names: a day       *)
(* number since 1970-01-01, a second of that day and a microsecond.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals64

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Valid(y, m, d) == /\ y \in 1..9999 /\ m \in 1..12 /\ d \in 1..Length(y, m)
\* Days of the years 1..y-1, of the months 1..m-1 of the year y
Years(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 +
            (y - 1) \div 400
RECURSIVE Months(_, _)
Months(y, m) == IF m = 1 THEN 0 ELSE Months(y, m - 1) + Length(y, m - 1)
Since1(y, m, d) == Years(y) + Months(y, m) + d - 1
Day(y, m, d) == Since1(y, m, d) - Since1(1970, 1, 1)

\* c: a record of the fields of a naive datetime
Instant(c) == <<Day(c.y, c.mo, c.d), c.h * 3600 + c.mi * 60 + c.s, c.us>>
\* Whole seconds within +-(2^31 - 1)
After(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] >= q[2])
Supported(i) == /\ After(<<24855, 11647>>, i)
                /\ After(i, <<-24856, 74753>>)
Seconds(i) == i[1] * 86400 + i[2]

(***************************************************************************)
(* Instants counted in a unit: `v` units, in decimal, are v * num / den s. *)
(***************************************************************************)
Unit == [D |-> <<"86400", "1">>, h |-> <<"3600", "1">>, m |-> <<"60", "1">>,
         s |-> <<"1", "1">>, ms |-> <<"1", "1e3">>, us |-> <<"1", "1e6">>,
         ns |-> <<"1", "1e9">>, ps |-> <<"1", "1e12">>,
         fs |-> <<"1", "1e15">>, as |-> <<"1", "1e18">>]
Epoch(v, u) == (RLit(v) \otimes RLit(Unit[u][1])) \oslash RLit(Unit[u][2])
\* three roundings
Exact(u) == u \in {"D", "h", "m", "s"}
Agrees(r, v, u) ==
  LET x == Epoch(v, u)
  IN IF x = Zero THEN REq(r, x)
     ELSE RClose(r, x, RLit("4.5e-16") \otimes RAbs(x)) /\
          (Exact(u) /\ RAbs(x) \prec RLit("9e15") => REq(r, x))
===============================================================================
