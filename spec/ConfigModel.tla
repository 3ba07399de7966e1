----------------------------- MODULE ConfigModel ------------------------------
(***************************************************************************)
(* Loading a configuration step by step (C21): section after section, file *)
(* after file, each compared with the first of its section.  A section is  *)
(* [kind, head, files]: head says whether everything but the files is right*)
(* and a file is "same" (as the first), "other" (another grid), "gone" or  *)
(* "unknown" (an unknown constituent).  Loading must succeed exactly when  *)
(* all is right, with all that is declared, or yield nothing.  Variants:   *)
(* "drop" leaves out the sections that are wrong, "skip" the constituents  *)
(* that are, "first" compares only the second file with the first one,     *)
(* "kind" builds LGP1 models as LGP2.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Files, Sections, Variant
VARIABLES conf, k, f, cur, built, out
vars == <<conf, k, f, cur, built, out>>
Kinds == {"cartesian", "lgp1", "lgp2"}
States(kind) == IF kind = "cartesian" THEN {"same", "other", "gone", "unknown"}
                ELSE {"same", "gone", "unknown"}
Lists(kind) == UNION {[1..n -> States(kind)] : n \in 0..Files}
\* What comes first defines the grid.
Made == UNION {[kind : {q}, head : BOOLEAN, files : {l \in Lists(q) :
                 l # <<>> => l[1] # "other"}] : q \in Kinds}
Init == conf = <<>> /\ k = 0 /\ f = 0 /\ cur = <<>> /\ built = <<>> /\
        out = "unset"
Start == /\ out = "unset"
         /\ \E n \in 0..Sections : conf' \in [1..n -> Made]
         /\ k' = 1 /\ f' = 0 /\ out' = "none"
         /\ UNCHANGED <<cur, built>>
Refuse == /\ out' = IF Variant = "drop" THEN "none" ELSE "refused"
          /\ built' = IF Variant = "drop" THEN built ELSE <<>>
          /\ k' = k + 1 /\ f' = 0 /\ cur' = <<>> /\ UNCHANGED conf
Empty == conf = <<>> \/ (k <= Len(conf) /\ conf[k].files = <<>>)
Head1 ==
  /\ out = "none" /\ k <= Len(conf) /\ f = 0
  /\ IF ~conf[k].head \/ conf[k].files = <<>> THEN Refuse
     ELSE f' = 1 /\ UNCHANGED <<conf, k, cur, built, out>>
File ==
  /\ out = "none" /\ k <= Len(conf) /\ f > 0 /\ f <= Len(conf[k].files)
  /\ LET s == conf[k].files[f]
         bad == s # "same" /\ ~(Variant = "first" /\ s = "other" /\ f > 2)
     IN IF bad /\ Variant = "skip" /\ s = "unknown"
        THEN f' = f + 1 /\ UNCHANGED <<conf, k, cur, built, out>>
        ELSE IF bad THEN Refuse
        ELSE /\ cur' = Append(cur, f) /\ f' = f + 1
             /\ UNCHANGED <<conf, k, built, out>>
Section ==
  /\ out = "none" /\ k <= Len(conf) /\ f > 0 /\ f > Len(conf[k].files)
  /\ built' = Append(built, [kind |-> IF Variant = "kind" /\
                                         conf[k].kind = "lgp1" THEN "lgp2"
                                      ELSE conf[k].kind, data |-> cur])
  /\ k' = k + 1 /\ f' = 0 /\ cur' = <<>> /\ UNCHANGED <<conf, out>>
End == /\ out = "none" /\ k > Len(conf)
       /\ out' = IF conf = <<>> THEN "refused" ELSE "ok"
       /\ UNCHANGED <<conf, k, f, cur, built>>
Next == Start \/ Head1 \/ File \/ Section \/ End

Fine(m) == m.head /\ m.files # <<>> /\
           \A i \in 1..Len(m.files) : m.files[i] = "same"
AllFine == conf # <<>> /\ \A i \in 1..Len(conf) : Fine(conf[i])
Done == out \in {"ok", "refused"}
Right == Done => (out = "ok") = AllFine
Exact == Done => built = IF AllFine
                         THEN [i \in 1..Len(conf) |->
                                 [kind |-> conf[i].kind,
                                  data |-> [j \in 1..Len(conf[i].files) |-> j]]]
                         ELSE <<>>
Emit == Done => PrintT("BEH " \o ToJson(conf))
=============================================================================
