----------------------------- MODULE ExpandModel ------------------------------
(***************************************************************************)
(* The expansion of environment variables pass by pass (C21): every pass   *)
(* replaces the variables of a value by theirs, at most Limit times.  For  *)
(* every environment it must end with the string that Expand defines, and  *)
(* refuse exactly what Expand refuses.  Variants: "count" counts variables *)
(* instead of passes, "once" makes a single pass, "quiet" leaves what it   *)
(* cannot replace.                                                         *)
(***************************************************************************)
EXTENDS Config, TLC, Json
CONSTANTS Vars, Parts, Limit, Variant
VARIABLES env, text, cur, left, out
vars == <<env, text, cur, left, out>>
VarName(i) == <<"V1", "V2", "V3", "V4">>[i]
Lit == <<"t", "a">>
Part == {Lit} \cup {<<"v", VarName(i)>> : i \in 1..Vars}
Texts(n) == UNION {[1..k -> Part] : k \in 0..n}
Undef == << <<"u", "">> >>
Init == env = <<>> /\ text = <<>> /\ cur = <<>> /\ left = 0 /\ out = "unset"
Start ==
  /\ out = "unset"
  /\ \E f \in [1..Vars -> Texts(Parts) \cup {Undef}] :
       LET d == {i \in 1..Vars : f[i] # Undef}
           RECURSIVE Pick(_)
           Pick(i) == IF i > Vars THEN <<>>
                      ELSE (IF i \in d THEN << <<VarName(i), f[i]>> >>
                            ELSE <<>>) \o Pick(i + 1)
       IN env' = Pick(1)
  /\ \E t \in Texts(Parts) : t # <<>> /\ text' = t /\ cur' = t
  /\ left' = Limit /\ out' = "none"
Pending(t) == \E i \in 1..Len(t) : t[i][1] = "v"
RECURSIVE Replace(_)
Replace(t) ==
  IF t = <<>> THEN <<>>
  ELSE (IF Head(t)[1] = "t" THEN <<Head(t)>>
        ELSE IF Has(env, Head(t)[2]) THEN Get(env, Head(t)[2])
        ELSE <<Head(t)>>) \o Replace(Tail(t))
Missing(t) == \E i \in 1..Len(t) : t[i][1] = "v" /\ ~Has(env, t[i][2])
Found(t) == Cardinality({i \in 1..Len(t) : t[i][1] = "v"})
Pass ==
  /\ out = "none" /\ Pending(cur) /\ left > 0
  /\ IF Missing(cur)
     THEN IF Variant = "quiet" THEN out' = "ok" ELSE out' = "missing"
     ELSE out' = "none"
  /\ cur' = Replace(cur)
  /\ left' = CASE Variant = "count" -> IF left > Found(cur)
                                       THEN left - Found(cur) ELSE 0
               [] Variant = "once" -> 0
               [] OTHER -> left - 1
  /\ UNCHANGED <<env, text>>
Finish ==
  /\ out = "none" /\ (~Pending(cur) \/ left = 0)
  /\ out' = IF Pending(cur) THEN "deep" ELSE "ok"
  /\ UNCHANGED <<env, text, cur, left>>
Next == Start \/ Pass \/ Finish
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN ""
          ELSE (IF Head(t)[1] = "t" THEN Head(t)[2] ELSE "?") \o Cat(Tail(t))
Right == out \notin {"unset", "none"} =>
           /\ (out = "ok") = Ok(text, env)
           /\ out = "ok" => Cat(cur) = Str(text, env)
Emit == (out \notin {"unset", "none"}) => PrintT("BEH " \o ToJson([env |-> env, text |-> text]))
=============================================================================
