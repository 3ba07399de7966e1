-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Tables of constituents (C04, C05, C08, C16, C17): names and             *)
(* identifiers, what a table holds, what is computed from it.              *)
(***************************************************************************)
EXTENDS Admittance, Equilibrium, Names, FiniteSets

Set(q) == {q[i] : i \in 1..Len(q)}

(***************************************************************************)
(* A table: its constituents in order, what is set on each of them, and    *)
(* the elements its nodal corrections were last computed from (<<>> if     *)
(* they never were).                                                       *)
(***************************************************************************)
NewTable(order) ==
  [order |-> order,
   v |-> [id \in Set(order) |-> CZero],
   adm |-> {id \in Set(order) : W(id).admit},
   dyn |-> {},
   nod |-> <<>>, raw |-> <<>>]
SetWave(t, id, v, adm, dyn) ==
  [t EXCEPT !.v[id] = v,
            !.adm = IF adm THEN @ \cup {id} ELSE @ \ {id},
            !.dyn = IF dyn THEN @ \cup {id} ELSE @ \ {id}]

\* C04
Admitted(t) == [t EXCEPT !.v = Infer(@, t.adm \cap Set(t.order))]

\* The factor of 2MK6 is a known finding of C06; it is not judged again here.
Unjudged == {IdOf("2MK6")}

\* C17: contribution of a constituent of complex constant c
Part(id, c, a, f) ==
  LET phi == V(W(id), a) \oplus U(W(id), a)
  IN f[id] \otimes ((c[1] \otimes RCos(phi)) \oplus (c[2] \otimes RSin(phi)))
Series(t, wave, a) ==
  LET f == AllF(a)
  IN RSum([j \in 1..Len(t.order) |->
             IF wave[j] = CZero THEN Zero ELSE Part(t.order[j], wave[j], a, f)])
Magnitude(wave) ==
  One \oplus RSum([j \in 1..Len(wave) |->
                     RAbs(wave[j][1]) \oplus RAbs(wave[j][2])])

\* C16: constituents shorter than f times the duration (seconds).  The ones
\* within 1e-9 of the limit may be on either side.
Selected(duration, f) ==
  {id \in Ids : Period(W(id)) \prec
                (f \otimes (duration \oslash RInt(3600)))}
Borderline(duration, f) ==
  LET x == f \otimes (duration \oslash RInt(3600))
  IN {id \in Ids : RAbs(Period(W(id)) \ominus x) \preceq
                   (RLit("1e-9") \otimes RAbs(x))}
=============================================================================
