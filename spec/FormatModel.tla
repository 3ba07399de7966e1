----------------------------- MODULE FormatModel ------------------------------
(***************************************************************************)
(* The design of reading a saved state (C14): a reader that goes through   *)
(* the fields of a state, one per step, over every cut of it and every     *)
(* damage of at most Edits fields.                                         *)
(*                                                                         *)
(* A state is a sequence of fields, all integers.  Cartesian: storage      *)
(* order; two axes, each with its length before it, and circular,          *)
(* ascending, start, size, step in it; type; number of constituents, each  *)
(* with identifier, rows, columns, values; number of dynamic constituents, *)
(* identifiers.  LGP (mesh of two triangles over four vertices): type;     *)
(* length of the mesh, positions (rows, columns, values), connectivity     *)
(* (rows, columns, values); codes (rows, columns, values); constituents    *)
(* and dynamic constituents as above.                                      *)
(*                                                                         *)
(* Variants: mistakes of a reader.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Edits, Variant

Values == {-1, 0, 1, 2, 3, 9}

Whole ==
  IF Kind = "cart"
  THEN <<1, 5, 0, 1, 7, 2, 1, 5, 0, 1, 3, 2, 2, 1, 1, 4, 4, 1,
         11, 12, 13, 14, 1, 5>>
  ELSE <<1, 14, 4, 1, 0, 1, 2, 3, 2, 3, 0, 1, 2, 1, 2, 3,
         99, 2, 3, 0, 1, 2, 1, 2, 3, 1, 4, 4, 1, 11, 12, 13, 14, 1, 5>>
MaxId == 8                  \* identifiers are 0..MaxId
Memory == 40                \* more fields than any state has

VARIABLES toks, todo, pos, lim, obj, acc, status, over, claimed
\* todo: what remains to be read; lim: where the nested state ends (0: not in
\* one); acc: values of the array being read; over: was something read beyond
\* the state; claimed: the largest array asked for
vars == <<toks, todo, pos, lim, obj, acc, status, over, claimed>>

Axis0(k) == <<"len", "circ" \o k, "asc" \o k, "start" \o k, "n" \o k,
              "step" \o k, "endlen">>
Fields ==
  IF Kind = "cart"
  THEN <<"order">> \o Axis0("x") \o Axis0("y") \o
       <<"type", "count", "dcount", "end">>
  ELSE <<"type", "len", "lon", "tri", "endlen", "maxd", "codes", "count",
         "dcount", "end">>
Init == /\ toks = Whole /\ status = "damage" /\ todo = Fields
        /\ pos = 1 /\ lim = 0 /\ acc = <<>>
        /\ obj = [data |-> <<>>, dyn |-> <<>>, cut |-> FALSE, edits |-> 0]
        /\ over = FALSE /\ claimed = 0

Cut == /\ status = "damage" /\ obj.edits = 0
       /\ \E n \in 0..(Len(Whole) - 1) : toks' = SubSeq(Whole, 1, n)
       /\ obj' = [obj EXCEPT !.cut = TRUE]
       /\ status' = "reading"
       /\ UNCHANGED <<todo, pos, lim, acc, over, claimed>>
Edit == /\ status = "damage" /\ obj.edits < Edits
        /\ \E i \in 1..Len(Whole), v \in Values :
             /\ toks[i] = Whole[i] /\ Whole[i] # v
             /\ \A j \in i..Len(Whole) : toks[j] = Whole[j]
             /\ toks' = [toks EXCEPT ![i] = v]
        /\ obj' = [obj EXCEPT !.edits = @ + 1]
        /\ UNCHANGED <<todo, pos, lim, acc, status, over, claimed>>
Start == /\ status = "damage" /\ status' = "reading"
         /\ UNCHANGED <<toks, todo, pos, lim, obj, acc, over, claimed>>

Checked == Variant # "reads on"
Limit == IF lim = 0 THEN Len(toks) ELSE lim - 1
Available == Limit - pos + 1
\* The field at the cursor (something else beyond the end)
Field(p) == IF p \in 1..Len(toks) THEN toks[p] ELSE 1
Beyond(p) == p > Len(toks)

Fail == /\ status' = "failed"
        /\ UNCHANGED <<toks, todo, pos, lim, obj, acc, claimed>>
\* Goes on after taking k fields
Go(k, rest, o) ==
  /\ pos' = pos + k /\ todo' = rest /\ obj' = o
  /\ UNCHANGED <<toks, acc, status, claimed>>
Rest == Tail(todo)
With(f, k, v) == (k :> v) @@ f

Boolean(v) == Variant = "any boolean" \/ v \in {0, 1}
AxisOk(k) ==
  \/ Variant = "any axis"
  \/ /\ obj["n" \o k] >= 2 /\ obj["step" \o k] # 0
     /\ (obj["asc" \o k] = 1) = (obj["step" \o k] > 0)
     /\ obj["circ" \o k] = 1 =>
          obj["n" \o k] * obj["step" \o k] \in {-360, 360}
\* Rows and columns of an array, -1: refused
Dims(cols) ==
  LET r == Field(pos)
      c == Field(pos + 1)
      left == Available - 2
  IN IF Checked /\ Available < 2 THEN -1
     ELSE IF Variant = "trusts sizes"
     THEN IF r < 0 \/ c < 0 THEN -1 ELSE r * c
     ELSE IF r < 0 \/ c # cols \/ r * c > left THEN -1
     ELSE r * c
Values0(n) == [i \in 1..n |-> Field(pos + 1 + i)]
\* Read an array into obj[name]
Array(name, cols) ==
  LET n == Dims(cols)
  IN IF n = -1 THEN Fail /\ UNCHANGED <<lim, over>>
     ELSE IF n > Available - 2
     THEN \* only a reader that trusts the sizes comes here
          /\ claimed' = n /\ status' = "failed"
          /\ UNCHANGED <<toks, todo, pos, lim, obj, acc, over>>
     ELSE /\ over' = (over \/ Beyond(pos + 1 + n))
          /\ Go(2 + n, Rest, With(obj, name, Values0(n)))
          /\ UNCHANGED lim

Max(q) == IF q = <<>> THEN -1
          ELSE CHOOSE x \in {q[i] : i \in 1..Len(q)} :
                 \A i \in 1..Len(q) : q[i] <= x
Size == IF Kind = "cart" THEN obj.nx * obj.ny ELSE Max(obj.codes) + 1
InRange(q, n) == \A i \in 1..Len(q) : q[i] \in 0..(n - 1)
Consistent ==
  /\ Variant = "any type" \/ obj.type \in {1, 2}
  /\ Variant = "any identifier" \/
       /\ \A i \in 1..Len(obj.data) : obj.data[i][1] \in 0..MaxId
       /\ \A i \in 1..Len(obj.dyn) : obj.dyn[i] \in 0..MaxId
  /\ Variant = "any size" \/
       \A i \in 1..Len(obj.data) : Len(obj.data[i][2]) = Size
  /\ Kind = "lgp" =>
       /\ Len(obj.tri) >= 3
       /\ Variant = "any connectivity" \/ InRange(obj.tri, Len(obj.lon))
       /\ Variant = "any codes" \/
            (Len(obj.codes) = Len(obj.tri) /\ InRange(obj.codes, Memory))

Step ==
  /\ status = "reading"
  /\ LET f == Head(todo)
         v == Field(pos)
         scalar(o) == /\ over' = (over \/ Beyond(pos))
                      /\ Go(1, Rest, o) /\ UNCHANGED lim
         fail == Fail /\ UNCHANGED <<lim, over>>
     IN IF f = "end"
        THEN /\ status' = IF Consistent THEN "object" ELSE "failed"
             /\ UNCHANGED <<toks, todo, pos, lim, obj, acc, over, claimed>>
        ELSE IF f = "endlen"
        THEN IF Kind = "cart" /\ ~AxisOk(IF "ny" \in DOMAIN obj THEN "y"
                                         ELSE "x")
             THEN fail
             ELSE /\ pos' = lim /\ lim' = 0 /\ todo' = Rest
                  /\ UNCHANGED <<toks, obj, acc, status, over, claimed>>
        ELSE IF f \in {"lon"} THEN Array(f, 1)
        ELSE IF f \in {"tri", "codes"} THEN Array(f, 3)
        ELSE IF f \in {"item", "ditem"} /\ acc = 0
        THEN /\ todo' = Rest
             /\ UNCHANGED <<toks, pos, lim, obj, acc, status, over, claimed>>
        ELSE IF Checked /\ Available < 1 THEN fail
        ELSE IF f = "len"
        THEN IF v < 0 \/ (v > Available - 1 /\ Variant # "long view") THEN fail
             ELSE /\ pos' = pos + 1 /\ lim' = pos + 1 + v /\ todo' = Rest
                  /\ over' = (over \/ Beyond(pos))
                  /\ UNCHANGED <<toks, obj, acc, status, claimed>>
        ELSE IF f \in {"count", "dcount"}
        THEN \* the elements, one by one
             IF v < 0 THEN fail
             ELSE /\ over' = (over \/ Beyond(pos))
                  /\ pos' = pos + 1
                  /\ todo' = <<(IF f = "count" THEN "item" ELSE "ditem")>> \o
                             Rest
                  /\ acc' = v
                  /\ UNCHANGED <<toks, lim, obj, status, claimed>>
        ELSE IF f = "ditem"
        THEN /\ over' = (over \/ Beyond(pos))
             /\ obj' = [obj EXCEPT !.dyn = Append(@, v)]
             /\ pos' = pos + 1 /\ acc' = acc - 1
             /\ UNCHANGED <<toks, todo, lim, status, claimed>>
        ELSE IF f = "item"
        THEN /\ pos' = pos + 1
             /\ over' = (over \/ Beyond(pos))
             /\ obj' = With(obj, "id", v)
             /\ todo' = <<"values">> \o todo
             /\ UNCHANGED <<toks, lim, acc, status, claimed>>
        ELSE IF f = "values"
        THEN LET n == Dims(1)
             IN IF n = -1 THEN fail
                ELSE IF n > Available - 2
                THEN /\ claimed' = n /\ status' = "failed"
                     /\ UNCHANGED <<toks, todo, pos, lim, obj, acc, over>>
                ELSE /\ over' = (over \/ Beyond(pos + 1 + n))
                     /\ pos' = pos + 2 + n
                     /\ obj' = [obj EXCEPT !.data = Append(@, <<obj.id,
                                                                Values0(n)>>)]
                     /\ acc' = acc - 1
                     /\ todo' = Rest
                     /\ UNCHANGED <<toks, lim, status, claimed>>
        ELSE IF f \in {"order", "circx", "circy", "ascx", "ascy"} /\ ~Boolean(v)
        THEN fail
        ELSE scalar(With(obj, f, v))
Next == Cut \/ Edit \/ Start \/ Step

(***************************************************************************)
(* What a user is owed                                                     *)
(***************************************************************************)
\* It ends: a step takes fields, or an item of what remains to be read.
\* (every behaviour of the model is finite: a checker explores them all)
Within == ~over
Refused == obj.cut => status # "object"
Bounded == claimed <= Memory
Restored == toks = Whole /\ status \in {"object", "failed"} =>
              status = "object" /\ pos = Len(Whole) + 1
Sound ==
  status = "object" =>
    LET sizes == {Len(obj.data[i][2]) : i \in 1..Len(obj.data)}
        ids == {obj.data[i][1] : i \in 1..Len(obj.data)} \cup
               {obj.dyn[i] : i \in 1..Len(obj.dyn)}
    IN /\ obj.type \in {1, 2}
       /\ ids \subseteq 0..MaxId
       /\ IF Kind = "cart"
          THEN /\ obj.order \in {0, 1}
               /\ sizes \subseteq {obj.nx * obj.ny}
               /\ \A k \in {"x", "y"} :
                    /\ obj["n" \o k] >= 2
                    /\ obj["step" \o k] # 0
                    /\ obj["asc" \o k] = IF obj["step" \o k] > 0 THEN 1 ELSE 0
                    /\ obj["circ" \o k] \in {0, 1}
          ELSE /\ InRange(obj.tri, Len(obj.lon))
               /\ Len(obj.codes) = Len(obj.tri) /\ Len(obj.tri) > 0
               /\ \A s \in sizes : InRange(obj.codes, s)
               /\ Cardinality(sizes) <= 1
=============================================================================
