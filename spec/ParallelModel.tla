---------------------------- MODULE ParallelModel -----------------------------
(***************************************************************************)
(* The algorithm that shares out the work (C15), step by step: the number  *)
(* of threads is settled, each thread is created or refused by the system  *)
(* (its share is then the caller's), the threads are joined and an error   *)
(* is raised again.  It refines Parallel and ends.  The other variants are *)
(* mistakes that the model must see.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxItems, MaxThreads, Variant

VARIABLES size, fails, busy, done, lost, out,   \* as in Parallel
          asked, cpus, refuse,                  \* the case
          n,         \* number of shares
          pc,        \* of the caller
          k,         \* next share to hand out, or thread to join
          shares,    \* share -> [from, to, at, st, who]
          errs       \* share -> item that failed, or -1
vars == <<size, fails, busy, done, lost, out, asked, cpus, refuse, n, pc, k,
          shares, errs>>
Abs == INSTANCE Parallel

Min(a, b) == IF a < b THEN a ELSE b
None == [from |-> 0, to |-> 0, at |-> 0, st |-> "none", who |-> "none"]
Init ==
  /\ size \in 0..MaxItems /\ fails \in SUBSET (0..(size - 1))
  /\ asked \in 0..MaxThreads
  /\ cpus \in (IF asked = 0 THEN 0..3 ELSE {1})
  /\ refuse \in SUBSET (0..(Min(MaxThreads, MaxItems) - 1))
  /\ busy = 0 /\ done = {} /\ lost = {} /\ out = "working"
  /\ n = -1 /\ pc = "settle" /\ k = 0
  /\ shares = <<>> /\ errs = <<>>

Case == <<size, fails, asked, cpus, refuse>>
Settle ==
  LET want == IF asked = 0 THEN cpus ELSE asked
      m == Min(want, size)
      alone == IF Variant = "empty" THEN m = 1 ELSE m <= 1
  IN /\ pc = "settle"
     /\ n' = IF alone THEN 1 ELSE m
     /\ pc' = IF alone THEN "own" ELSE "hand"
     /\ errs' = [i \in 0..(n' - 1) |-> -1]
     /\ shares' = [i \in 0..(n' - 1) |->
                     IF alone THEN [from |-> 0, to |-> size, at |-> 0,
                                    st |-> "new", who |-> "caller"]
                     ELSE None]
     /\ UNCHANGED <<size, fails, busy, done, lost, out, asked, cpus, refuse, k>>
\* Share k of n
Share(i) ==
  LET shift == size \div n IN
  [from |-> i * shift,
   to |-> IF i = n - 1 /\ Variant # "remainder" THEN size ELSE (i + 1) * shift,
   at |-> i * shift, st |-> "new",
   who |-> IF i \in refuse /\ (i < n - 1 \/ Variant # "spare")
           THEN "caller" ELSE "thread"]
Hand ==
  /\ pc = "hand" /\ k < n
  /\ n > 0
  /\ IF k \in refuse /\ Variant = "refused"
     THEN \* the share of a refused thread is forgotten
          shares' = [shares EXCEPT ![k] = [Share(k) EXCEPT !.st = "over"]]
     ELSE shares' = [shares EXCEPT ![k] = Share(k)]
  /\ IF shares'[k].who = "caller" /\ shares'[k].st = "new"
     THEN pc' = "own" /\ k' = k
     ELSE pc' = "hand" /\ k' = k + 1
  /\ UNCHANGED <<size, fails, busy, done, lost, out, asked, cpus, refuse, n,
                 errs>>
\* One step of share i
Step(i) ==
  LET s == shares[i] IN
  /\ UNCHANGED <<size, fails, out, asked, cpus, refuse, n>>
  /\ CASE s.st = "new" ->
            /\ busy' = busy + 1
            /\ shares' = [shares EXCEPT ![i].st = "run"]
            /\ UNCHANGED <<done, lost, errs>>
       [] s.st = "run" /\ s.at < s.to /\ s.at \notin fails ->
            /\ done' = done \cup {s.at}
            /\ shares' = [shares EXCEPT ![i].at = @ + 1]
            /\ UNCHANGED <<busy, lost, errs>>
       [] s.st = "run" /\ s.at < s.to /\ s.at \in fails ->
            /\ lost' = lost \cup {s.at}
            /\ shares' = [shares EXCEPT ![i].st = "failed"]
            /\ UNCHANGED <<busy, done, errs>>
       [] s.st = "failed" ->
            /\ busy' = busy - 1
            /\ errs' = [errs EXCEPT ![i] = s.at]
            /\ shares' = [shares EXCEPT ![i].st = "over"]
            /\ UNCHANGED <<done, lost>>
       [] s.st = "run" /\ s.at >= s.to ->
            /\ busy' = busy - 1
            /\ shares' = [shares EXCEPT ![i].st = "over"]
            /\ UNCHANGED <<done, lost, errs>>
       [] OTHER -> FALSE
Thread ==
  \E i \in DOMAIN shares :
    shares[i].who = "thread" /\ Step(i) /\ UNCHANGED <<pc, k>>
Own ==
  /\ pc = "own"
  /\ IF shares[k].st = "over"
     THEN /\ pc' = IF n = 1 THEN "end" ELSE "hand"
          /\ k' = k + 1
          /\ UNCHANGED <<size, fails, busy, done, lost, out, asked, cpus,
                         refuse, n, shares, errs>>
     ELSE Step(k) /\ UNCHANGED <<pc, k>>
Joined == IF Variant = "unjoined" THEN {} ELSE
          {i \in DOMAIN shares : shares[i].who = "thread"}
Join ==
  /\ pc = "hand" /\ k >= n
  /\ \A i \in Joined : shares[i].st = "over"
  /\ pc' = "end"
  /\ UNCHANGED <<size, fails, busy, done, lost, out, asked, cpus, refuse, n, k,
                 shares, errs>>
Raised == {i \in DOMAIN errs : errs[i] # -1}
Kept == CASE Variant = "swallowed" -> {}
          [] Variant = "last" -> {i \in Raised : i = n - 1}
          [] OTHER -> Raised
End ==
  /\ pc = "end"
  /\ out' = IF Kept = {} THEN "returned" ELSE "raised"
  /\ pc' = "over"
  /\ UNCHANGED <<size, fails, busy, done, lost, asked, cpus, refuse, n, k,
                 shares, errs>>
Next == Settle \/ Hand \/ Thread \/ Own \/ Join \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Safe ==
  /\ out = "returned" => done = Abs!Items /\ lost = {} /\ busy = 0
  /\ out = "raised" => lost # {} /\ busy = 0
  /\ done \cap lost = {} /\ done \cup lost \subseteq Abs!Items
Divides == pc # "settle" => n > 0   \* size \div n is defined
\* every step is a step of Parallel: each item at most once
Refines == [][Abs!PNext]_(Abs!pvars)
Ends == <>(pc = "over")
Cases == pc = "settle" => PrintT("BEH " \o ToJson(
           [size |-> size, asked |-> asked, cpus |-> cpus,
            refuse |-> refuse, fails |-> fails]))
=============================================================================
