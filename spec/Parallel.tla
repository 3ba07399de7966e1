------------------------------ MODULE Parallel --------------------------------
(***************************************************************************)
(* What sharing out work promises (C15): a call on `size` items, those in  *)
(* `fails` failing, processes each item at most once; it returns when all  *)
(* of them were processed and nothing is being processed any more, or      *)
(* fails, also when nothing is being processed any more, with the error of *)
(* one of the items that failed.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES size, fails, busy, done, lost, out
pvars == <<size, fails, busy, done, lost, out>>

Items == 0..(size - 1)
Idle == /\ size = 0 /\ fails = {} /\ busy = 0 /\ done = {} /\ lost = {}
        /\ out = "idle"
Started(n, f) == /\ size = n /\ fails = f /\ busy = 0 /\ done = {}
                 /\ lost = {} /\ out = "working"

MayStart == out # "working"
Start(n, f) ==
  /\ MayStart
  /\ size' = n /\ fails' = f /\ busy' = 0 /\ done' = {} /\ lost' = {}
  /\ out' = "working"
MayCall == out = "working"
Call == MayCall /\ busy' = busy + 1 /\ UNCHANGED <<size, fails, done, lost, out>>
MayLeave == out = "working" /\ busy > 0
Leave == MayLeave /\ busy' = busy - 1 /\
         UNCHANGED <<size, fails, done, lost, out>>
MayItem(i) == /\ out = "working" /\ busy > 0
              /\ i \in Items \ (done \cup lost) /\ i \notin fails
Item(i) == MayItem(i) /\ done' = done \cup {i} /\
           UNCHANGED <<size, fails, busy, lost, out>>
MayFail(i) == /\ out = "working" /\ busy > 0
              /\ i \in Items \ (done \cup lost) /\ i \in fails
Fail(i) == MayFail(i) /\ lost' = lost \cup {i} /\
           UNCHANGED <<size, fails, busy, done, out>>
MayReturn == out = "working" /\ busy = 0 /\ lost = {} /\ done = Items
Return == MayReturn /\ out' = "returned" /\
          UNCHANGED <<size, fails, busy, done, lost>>
MayRaise(i) == out = "working" /\ busy = 0 /\ i \in lost
Raise(i) == MayRaise(i) /\ out' = "raised" /\
            UNCHANGED <<size, fails, busy, done, lost>>
PNext ==
  \/ Call \/ Leave \/ Return
  \/ \E i \in Items : Item(i) \/ Fail(i) \/ Raise(i)
=============================================================================
