------------------------------ MODULE FrontModel ------------------------------
(***************************************************************************)
(* The relay step by step (C22).  The caller gives a dictionary in any     *)
(* order, with names missing, foreign or of the table, and gives or leaves *)
(* out the formulae and the number of threads (-1).  The front end fills   *)
(* the defaults in, picks the values name by name and calls the core, and  *)
(* labels its answer, one number per name of the table, with the names.    *)
(* Variants: "insertion" takes the values in the order of the dictionary,  *)
(* "dropped" forgets the formulae given, "falsy" takes a formulae of 0 for *)
(* none given, "extra" does not count the names, "labels" labels the       *)
(* answer with the names of the dictionary.                                *)
(***************************************************************************)
EXTENDS FrontEnd, TLC, Json
CONSTANTS Table, Foreign, Variant
VARIABLES given, k, call, out, answer
vars == <<given, k, call, out, answer>>
TableSeq == CHOOSE t \in [1..Cardinality(Table) -> Table] :
              \A i, j \in 1..Cardinality(Table) : i # j => t[i] # t[j]
AllNames == Table \cup Foreign
Dicts == {d \in UNION {[1..n -> AllNames] : n \in 0..Cardinality(AllNames)} :
            \A i, j \in DOMAIN d : i # j => d[i] # d[j]}
ValueOf == [n \in AllNames |-> CHOOSE i \in 1..Cardinality(AllNames) :
              LET t == CHOOSE t \in [1..Cardinality(AllNames) -> AllNames] :
                         \A i2, j2 \in 1..Cardinality(AllNames) :
                           i2 # j2 => t[i2] # t[j2]
              IN t[i] = n]
Init == given = <<>> /\ k = 0 /\ call = <<>> /\ answer = <<>> /\
        out = "unset"
Start == /\ out = "unset"
         /\ \E d \in Dicts, f \in -1..2, n \in -1..2 :
              given' = [dict |-> [i \in DOMAIN d |-> <<d[i], ValueOf[d[i]]>>],
                        formulae |-> f, threads |-> n]
         /\ out' = "fill" /\ UNCHANGED <<k, call, answer>>
Absent(f) == f = -1 \/ (Variant = "falsy" /\ f = 0) \/ Variant = "dropped"
Fill == /\ out = "fill"
        /\ call' = [formulae |-> IF Absent(given.formulae) THEN Order3
                                 ELSE given.formulae,
                    threads |-> Or(given.threads, 0), wave |-> <<>>]
        /\ IF Len(given.dict) # Len(TableSeq) /\ Variant # "extra"
           THEN out' = "refused" ELSE out' = "pick"
        /\ k' = 1 /\ UNCHANGED <<given, answer>>
Pick == /\ out = "pick" /\ k <= Len(TableSeq)
        /\ LET d == given.dict
               n == IF Variant = "insertion" /\ k <= Len(d)
                    THEN d[k][1] ELSE TableSeq[k]
           IN IF n \notin Keys(d) THEN out' = "refused" /\ UNCHANGED call
              ELSE call' = [call EXCEPT !.wave = Append(@, Item(d, n))] /\
                   UNCHANGED out
        /\ k' = k + 1 /\ UNCHANGED <<given, answer>>
\* The core answers with twice what it is given.
Core == /\ out = "pick" /\ k > Len(TableSeq)
        /\ answer' = [i \in 1..Len(TableSeq) |->
                        <<IF Variant = "labels" /\ i <= Len(given.dict)
                          THEN given.dict[i][1] ELSE TableSeq[i],
                          2 * call.wave[i]>>]
        /\ out' = "ok" /\ UNCHANGED <<given, k, call>>
Next == Start \/ Fill \/ Pick \/ Core
Done == out \in {"ok", "refused"}
Right == Done => (out = "ok") = Fits(given.dict, TableSeq)
Relay == out = "ok" =>
  call = [formulae |-> Or(given.formulae, Order3),
          threads |-> Or(given.threads, 0),
          wave |-> InOrder(given.dict, TableSeq)]
Answered == out = "ok" =>
  \A i \in 1..Len(answer) : answer[i][2] = 2 * Item(given.dict, answer[i][1])
Emit == Done => PrintT("BEH " \o ToJson(given))
=============================================================================
