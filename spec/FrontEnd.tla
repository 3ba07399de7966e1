------------------------------- MODULE FrontEnd -------------------------------
(***************************************************************************)
(* The Python front end as a relay (C22): for what the caller gives, the   *)
(* call that the core must receive, and for the answer of the core, what   *)
(* the caller must get.  An argument left out is -1, or <<>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Meeus == 0
Order1 == 1
Order3 == 2
Zero == <<0, 0>>                       \* the number 0.0
Or(given, default) == IF given = -1 THEN default ELSE given

\* The settings are <<formulae, tolerance, excluded constituents>>.
Default == <<Order1, Zero, <<>>>>
SettingsOf(formulae, tol, excluded) ==
  <<Or(formulae, Order1), IF tol = <<>> THEN Zero ELSE tol, excluded>>

(***************************************************************************)
(* A dictionary is a sequence of <<name, value>> in any order; the core    *)
(* takes the values in the order of the names of the table.                *)
(***************************************************************************)
Keys(d) == {d[i][1] : i \in 1..Len(d)}
Item(d, n) == LET i == CHOOSE i \in 1..Len(d) : d[i][1] = n IN d[i][2]
Fits(d, table) == Len(d) = Len(table) /\
                  Keys(d) = {table[i] : i \in 1..Len(table)}
InOrder(d, table) == [i \in 1..Len(table) |-> Item(d, table[i])]
\* The dictionary d holds values[i] for the i-th name of the table.
Labels(d, table, values) == Fits(d, table) /\
                            Len(values) = Len(table) /\
                            InOrder(d, table) = values
=============================================================================
