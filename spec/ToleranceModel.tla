---------------------------- MODULE ToleranceModel ----------------------------
(***************************************************************************)
(* The time tolerance (C19): a worker keeps the angles of a date as long   *)
(* as the requested dates stay within tau of it.  Date 0 stands for a      *)
(* missing date.  Anchored = FALSE is the mistake of measuring the age     *)
(* from the previous request, which lets the angles drift.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Span, MaxLen, Taus, Anchored

VARIABLES tau, used, prev, hist
vars == <<tau, used, prev, hist>>
Missing == 0
Unset == -1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == a # Missing /\ b # Missing /\ a # Unset /\ b # Unset /\
              Abs(a - b) <= tau

Init == tau \in Taus /\ used = Unset /\ prev = Unset /\ hist = <<>>
Request(d) ==
  /\ Len(hist) < MaxLen
  /\ used' = IF Near(d, IF Anchored THEN used ELSE prev) THEN used ELSE d
  /\ prev' = d
  /\ hist' = Append(hist, <<d, used'>>)
  /\ UNCHANGED tau
Next == \E d \in 0..Span : Request(d)

Last == hist[Len(hist)]
Bounded == hist # <<>> => /\ (Last[1] = Missing <=> Last[2] = Missing)
                          /\ Abs(Last[1] - Last[2]) <= tau
IsADateOfTheBatch == hist # <<>> => \E i \in 1..Len(hist) : hist[i][1] = Last[2]
ExactAtZero == (tau = 0 /\ hist # <<>>) => Last[1] = Last[2]
Emit == Len(hist) < MaxLen \/
        PrintT("BEH " \o ToJson([tau |-> tau, d |-> [i \in 1..Len(hist) |-> hist[i][1]]]))
=============================================================================
