------------------------------- MODULE LeapModel ------------------------------
(***************************************************************************)
(* The renewal of the leap second table step by step (C20): read, ask the  *)
(* server, look at its answer, store it aside, put it in place; the process*)
(* may be ended between any two steps, and processes follow one another.   *)
(* Whatever happens every finished lookup is one that Uses allows and the  *)
(* stored table stays a table.  Variants are mistakes the model must see:  *)
(* "inplace" writes over the stored table, "unseen" stores any answer,     *)
(* "helpless" has no use for an expired table without network.             *)
(***************************************************************************)
EXTENDS Leap, TLC, Json
CONSTANTS Lookups, Variant
VARIABLES disk, aside, pc, net, memo, start, ret, hist
vars == <<disk, aside, pc, net, memo, start, ret, hist>>

T(k) == << <<k, 0, k>> >>
Junk == [present |-> TRUE, expired |-> FALSE, table |-> <<>>]
Modes == {"down", "junk", "new", "full", "kill"}
Nets == [mode : Modes, expired : BOOLEAN, table : {T(2)}]
Files == {Absent, [present |-> TRUE, expired |-> TRUE, table |-> T(1)],
          [present |-> TRUE, expired |-> FALSE, table |-> T(1)]}
None == [ok |-> FALSE, table |-> <<>>, file |-> Absent]
Init == /\ disk \in Files /\ aside = Absent /\ pc = "idle" /\ memo = {}
        /\ net = [mode |-> "down", expired |-> FALSE, table |-> T(2)]
        /\ start = disk /\ ret = None
        /\ hist = <<[file |-> disk]>>

Ask == /\ pc = "idle" /\ Len(hist) <= Lookups
       /\ net' \in {n \in Nets : n.expired => n.mode = "new"}
       /\ \E again \in BOOLEAN :
            /\ again => Len(hist) > 1
            /\ memo' = IF again THEN {} ELSE memo   \* another process
            /\ hist' = Append(hist, [again |-> again, mode |-> net'.mode,
                                     expired |-> net'.expired])
       /\ start' = disk /\ ret' = None
       /\ pc' = IF memo' = {} THEN "read" ELSE "answer"
       /\ UNCHANGED <<disk, aside>>
Use(t, f) == [ok |-> TRUE, table |-> t, file |-> f]
Read ==
  /\ pc = "read"
  /\ IF disk.present /\ disk.table = <<>>
     THEN pc' = "fail" /\ memo' = memo
     ELSE IF disk.present
     THEN memo' = {disk.table} /\ pc' = IF disk.expired THEN "fetch"
                                        ELSE "answer"
     ELSE memo' = {} /\ pc' = "fetch"
  /\ UNCHANGED <<disk, aside, net, start, ret, hist>>
Without == IF memo = {} \/ Variant = "helpless" THEN "fail" ELSE "answer"
Fetch ==
  /\ pc = "fetch"
  /\ pc' = CASE net.mode = "kill" -> "dead"
             [] net.mode = "down" -> Without
             [] net.mode = "junk" /\ Variant # "unseen" -> Without
             [] OTHER -> "store"
  /\ UNCHANGED <<disk, aside, net, memo, start, ret, hist>>
Content == IF net.mode = "junk" THEN Junk ELSE Stored(net)
Store ==
  /\ pc = "store"
  /\ \/ /\ net.mode = "full"
        /\ disk' = IF Variant = "inplace" THEN Junk ELSE disk
        /\ pc' = Without /\ aside' = Absent
     \/ /\ net.mode # "full"
        /\ IF Variant = "inplace"
           THEN disk' = Junk /\ aside' = Content
           ELSE disk' = disk /\ aside' = Content
        /\ pc' = "place"
  /\ UNCHANGED <<net, memo, start, ret, hist>>
Place ==
  /\ pc = "place"
  /\ disk' = aside /\ aside' = Absent
  /\ IF disk'.table = <<>> THEN pc' = Without /\ memo' = memo
     ELSE pc' = "answer" /\ memo' = {disk'.table}
  /\ UNCHANGED <<net, start, ret, hist>>
Answer ==
  /\ pc = "answer"
  /\ ret' = Use(CHOOSE t \in memo : TRUE, disk)
  /\ pc' = "idle"
  /\ UNCHANGED <<disk, aside, net, memo, start, hist>>
Fail == /\ pc = "fail" /\ ret' = Failed(disk) /\ pc' = "idle" /\ memo' = {}
        /\ UNCHANGED <<disk, aside, net, start, hist>>
\* The process ends, what is on disk stays.
Kill == /\ pc \in {"dead", "store", "place"}
        /\ net.mode = "kill" \/ pc # "dead"
        /\ pc' = "idle" /\ ret' = None /\ memo' = {}
        /\ aside' = Absent
        /\ UNCHANGED <<disk, net, start, hist>>
Next == Ask \/ Read \/ Fetch \/ Store \/ Place \/ Answer \/ Fail \/ Kill

Sound == disk.present => disk.table # <<>>
Kept == start.present => disk.present
\* A process that held no table answers as Uses says.
Allowed == ret.ok => ret \in (Uses(start, net) \cup {Use(t, disk) : t \in memo})
Served == (pc = "fail") => ~start.present
Emit == (pc = "idle" /\ Len(hist) = Lookups + 1) =>
          PrintT("BEH " \o ToJson(hist))
=============================================================================
