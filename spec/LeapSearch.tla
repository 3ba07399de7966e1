------------------------------ MODULE LeapSearch ------------------------------
(***************************************************************************)
(* The search in the table (C20): a bisection per date must give the count *)
(* that Count defines, for every table and every array of dates.  Slots    *)
(* 2k are the instants of entries, odd ones lie between two of them.       *)
(* Variants: "left" lets an entry take effect one instant late, "first"    *)
(* searches the rest of an array from the previous result, "sorted"        *)
(* answers in the order of the dates.                                      *)
(***************************************************************************)
EXTENDS Leap, TLC, Json, SequencesExt
CONSTANTS Slots, Entries, Dates, Variant
VARIABLES table, dates, i, lo, hi, out
vars == <<table, dates, i, lo, hi, out>>
Tables == {t \in UNION {[1..n -> 0..Slots] : n \in 1..Entries} :
             /\ t[1] = 0
             /\ \A k \in 1..Len(t) : t[k] % 2 = 0
             /\ \A k \in 2..Len(t) : t[k - 1] < t[k]}
Init == table = <<>> /\ dates = <<>> /\ i = 0 /\ lo = 0 /\ hi = 0 /\ out = <<>>
Entry(t) == [k \in 1..Len(t) |-> <<730, t[k], (7 * k) % 5>>]
Ordered(d) == IF Variant = "sorted" THEN SortSeq(d, <) ELSE d
Start == /\ i = 0
         /\ \E t \in Tables : table' = Entry(t)
         /\ \E n \in 1..Dates : dates' \in [1..n -> 0..Slots]
         /\ i' = 1 /\ lo' = 0 /\ hi' = Len(table') /\ out' = <<>>
D == <<730, Ordered(dates)[i]>>
\* lo entries are known not to be later, those after hi to be later
Step == /\ i > 0 /\ i <= Len(dates) /\ lo < hi
        /\ LET m == (lo + hi) \div 2 + 1
               take == IF Variant = "left" THEN Before(table[m], D)
                       ELSE ~Before(D, table[m])
           IN IF take THEN lo' = m /\ hi' = hi ELSE lo' = lo /\ hi' = m - 1
        /\ UNCHANGED <<table, dates, i, out>>
Found == /\ i > 0 /\ i <= Len(dates) /\ lo = hi
         /\ out' = Append(out, table[IF lo = 0 THEN Len(table) ELSE lo][3])
         /\ i' = i + 1
         /\ lo' = (IF Variant = "first" THEN lo ELSE 0)
         /\ hi' = Len(table)
         /\ UNCHANGED <<table, dates>>
Next == Start \/ Step \/ Found
Done == i > Len(dates) /\ i > 0
Right == Done => out = Counts(table, [k \in 1..Len(dates) |-> <<730, dates[k]>>])
Emit == Done => PrintT("BEH " \o ToJson([table |-> [k \in 1..Len(table) |-> table[k][2]],
                                         dates |-> dates]))
=============================================================================
