--------------------------------- MODULE Leap ---------------------------------
(***************************************************************************)
(* Leap seconds (C20).  An instant is <<day since 1970, second of the day>>*)
(* and an entry of the table <<day, second, TAI - UTC from then on>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Dawn == <<730, 0>>          \* 1972-01-01
TooEarly(dates) == \E i \in 1..Len(dates) : Before(dates[i], Dawn)

\* The count of the latest entry not later than the date
Past(table, d) == {i \in 1..Len(table) : ~Before(d, table[i])}
Count(table, d) ==
  LET p == Past(table, d)
      i == CHOOSE i \in p : \A j \in p : ~Before(table[i], table[j])
  IN table[i][3]
Counts(table, dates) == [i \in 1..Len(dates) |-> Count(table, dates[i])]

(***************************************************************************)
(* Renewal.  `file` is what is stored: [present, expired, table]; `net` is *)
(* what the server would answer: mode "new" is a leap second file, "full"  *)
(* the same with no room to store it, "kill" ends the process meanwhile,   *)
(* and every other mode is a failure.  Uses gives the possible results of  *)
(* looking for a table: [ok, table, file].                                 *)
(***************************************************************************)
Absent == [present |-> FALSE, expired |-> FALSE, table |-> <<>>]
Stored(net) == [present |-> TRUE, expired |-> net.expired, table |-> net.table]
Failed(file) == [ok |-> FALSE, table |-> <<>>, file |-> file]
Old(file) == [ok |-> TRUE, table |-> file.table, file |-> file]
Uses(file, net) ==
  LET renewed == [ok |-> TRUE, table |-> net.table, file |-> Stored(net)]
      unsaved == [ok |-> TRUE, table |-> net.table, file |-> file]
  IN CASE file.present /\ ~file.expired -> {Old(file)}
       [] file.present /\ net.mode = "new" ->
            {renewed} \cup (IF net.expired THEN {Old(file)} ELSE {})
       [] file.present /\ net.mode = "full" -> {Old(file), unsaved}
       [] file.present /\ net.mode = "kill" -> {Failed(file)}
       [] file.present -> {Old(file)}
       [] ~file.present /\ net.mode = "new" -> {renewed}
       [] ~file.present /\ net.mode = "full" -> {Failed(file), unsaved}
       [] OTHER -> {Failed(file)}

\* The table distributed with the library starts with these entries.
Official ==
  << <<730, 0, 10>>, <<912, 0, 11>>, <<1096, 0, 12>>, <<1461, 0, 13>>,
   <<1826, 0, 14>>, <<2191, 0, 15>>, <<2557, 0, 16>>, <<2922, 0, 17>>,
   <<3287, 0, 18>>, <<3652, 0, 19>>, <<4199, 0, 20>>, <<4564, 0, 21>>,
   <<4929, 0, 22>>, <<5660, 0, 23>>, <<6574, 0, 24>>, <<7305, 0, 25>>,
   <<7670, 0, 26>>, <<8217, 0, 27>>, <<8582, 0, 28>>, <<8947, 0, 29>>,
   <<9496, 0, 30>>, <<10043, 0, 31>>, <<10592, 0, 32>>, <<13149, 0, 33>>,
   <<14245, 0, 34>>, <<15522, 0, 35>>, <<16617, 0, 36>>, <<17167, 0, 37>>>>
=============================================================================
