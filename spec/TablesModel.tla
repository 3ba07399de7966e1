----------------------------- MODULE TablesModel ------------------------------
(***************************************************************************)
(* Tables own their waves (C17).  A table refers to wave objects; copying  *)
(* it must create new ones, computations work on a private copy.  Variant  *)
(* "shared" (the copies share the objects) and "inplace" (a computation    *)
(* writes its nodal corrections in the waves of its argument) are mistakes *)
(* that the model must see.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Variant

Slots == 1..3
Waves == 1..2
Gone == 0
VARIABLES heap,   \* object -> <<value, date of the corrections>>
          ref,    \* slot -> wave -> object, or Gone
          want,   \* slot -> wave -> <<value, date>>, what each table holds
          hist
vars == <<heap, ref, want, hist>>

Objects == DOMAIN heap
Alloc(h, w, content) ==    \* one object per wave, appended
  [h |-> h \o [i \in 1..Cardinality(Waves) |-> content[i]],
   r |-> [i \in Waves |-> Len(h) + i]]
Init ==
  /\ heap = << <<0, 0>>, <<0, 0>> >>
  /\ ref = [x \in Slots |-> IF x = 1 THEN [i \in Waves |-> i] ELSE <<>>]
  /\ want = [x \in Slots |-> IF x = 1 THEN [i \in Waves |-> <<0, 0>>] ELSE <<>>]
  /\ hist = <<>>
Live == {x \in Slots : ref[x] # <<>>}
Content(x) == [i \in Waves |-> heap[ref[x][i]]]

Log(op) == hist' = Append(hist, op)
Copy(a, b) ==
  /\ a # b
  /\ IF Variant = "shared"
     THEN heap' = heap /\ ref' = [ref EXCEPT ![b] = ref[a]]
     ELSE LET n == Alloc(heap, Waves, Content(a))
          IN heap' = n.h /\ ref' = [ref EXCEPT ![b] = n.r]
  /\ want' = [want EXCEPT ![b] = want[a]]
  /\ \E how \in {"copy", "assign"} : Log(<<how, a, b>>)
Move(a, b) ==
  /\ a # b
  /\ ref' = [ref EXCEPT ![b] = ref[a], ![a] = <<>>]
  /\ want' = [want EXCEPT ![b] = want[a], ![a] = <<>>]
  /\ heap' = heap
  /\ Log(<<"move", a, b>>)
Set(a, i) ==
  LET v == Len(hist) + 1 IN
  /\ heap' = [heap EXCEPT ![ref[a][i]] = <<v, @[2]>>]
  /\ want' = [want EXCEPT ![a][i] = <<v, @[2]>>]
  /\ UNCHANGED ref
  /\ Log(<<"set", a, i, v>>)
Nodal(a) ==
  LET d == Len(hist) + 1 IN
  /\ heap' = [o \in DOMAIN heap |->
                IF \E i \in Waves : ref[a][i] = o THEN <<heap[o][1], d>>
                ELSE heap[o]]
  /\ want' = [want EXCEPT ![a] = [i \in Waves |-> <<@[i][1], d>>]]
  /\ UNCHANGED ref
  /\ Log(<<"nodal", a, d>>)
Compute(a) ==
  LET d == Len(hist) + 1 IN
  /\ heap' = IF Variant = "inplace"
             THEN [o \in DOMAIN heap |->
                     IF \E i \in Waves : ref[a][i] = o
                     THEN <<heap[o][1], d>> ELSE heap[o]]
             ELSE heap
  /\ UNCHANGED <<ref, want>>
  /\ \E what \in {"series", "map", "mods"} : Log(<<what, a, d>>)
Next ==
  /\ Len(hist) < MaxOps
  /\ \E a \in Live :
       \/ \E b \in Slots : Copy(a, b) \/ Move(a, b)
       \/ \E i \in Waves : Set(a, i)
       \/ Nodal(a)
       \/ Compute(a)

Holds == \A x \in Slots : IF ref[x] = <<>> THEN want[x] = <<>>
                          ELSE Content(x) = want[x]
NoAlias == \A x, y \in Live : x # y =>
             \A i, j \in Waves : ref[x][i] # ref[y][j]
Emit == Len(hist) < MaxOps \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
