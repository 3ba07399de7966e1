----------------------------- MODULE CalendarModel ----------------------------
(***************************************************************************)
(* Counting days one at a time through the years From..To, against         *)
(* Calendar!Day and against the arithmetic that needs no loop: years of    *)
(* March, in eras of 400.  Every year starts a count of its own, and ends  *)
(* on the first day of the next one.                                       *)
(***************************************************************************)
EXTENDS Calendar, TLC
CONSTANTS From, To, Variant
VARIABLES y, m, d, n, left
vars == <<y, m, d, n, left>>
Init == /\ y \in From..To /\ m = 1 /\ d = 1 /\ n = Day(y, 1, 1)
        /\ left = TRUE
Next == /\ left
        /\ n' = n + 1
        /\ IF d < Length(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
           ELSE /\ d' = 1
                /\ m' = IF m = 12 THEN 1 ELSE m + 1
                /\ y' = IF m = 12 THEN y + 1 ELSE y
        /\ left' = (y' = y)
Civil(yy, mm, dd) ==
  LET a == IF mm <= 2 THEN yy - 1 ELSE yy
      era == a \div 400
      yoe == a - era * 400
      k == IF Variant = "march" THEN 0 ELSE 2
      doy == (153 * (IF mm > 2 THEN mm - 3 ELSE mm + 9) + k) \div 5 + dd - 1
      doe == yoe * 365 + yoe \div 4 -
             (IF Variant = "julian" THEN 0 ELSE yoe \div 100) + doy
      shift == IF Variant = "january" THEN 0 ELSE 719468
  IN IF Variant = "century"
     THEN (a \div 100) * 36524 + (a % 100) * 365 + (a % 100) \div 4 + doy -
          (719468 - 4)
     ELSE era * 146097 + doe - shift
Counted == n = Day(y, m, d)
NoLoop == n = Civil(y, m, d)
Named == Valid(y, m, d) \/ y = 10000
\* every day has one name: the count never comes back
One1970 == (n = 0) = (<<y, m, d>> = <<1970, 1, 1>>)
\* What a 32 bits count of seconds can reach
Edges == /\ Supported(<<24855, 11647, 0>>) /\ ~Supported(<<24855, 11648, 0>>)
         /\ Supported(<<-24856, 74753, 0>>) /\ ~Supported(<<-24856, 74752, 0>>)
         /\ Seconds(<<24855, 11647>>) = 2147483647
         /\ Seconds(<<-24856 + 1, 74753 - 86400>>) = -2147483647
         /\ (n > -24856 /\ n < 24855 => Supported(<<n, 0, 0>>))
         /\ (n < -24856 \/ n > 24855 => ~Supported(<<n, 0, 0>>))
===============================================================================
