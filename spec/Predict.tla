------------------------------- MODULE Predict -------------------------------
(***************************************************************************)
(* The prediction of the tide: which constituents are counted, with which  *)
(* complex value, and the harmonic synthesis.                              *)
(***************************************************************************)
EXTENDS Admittance, Equilibrium

\* A model: constituents it provides and those it declares dynamic; the
\* settings exclude some.
Dynamic(provided, declared, excluded) == (provided \ excluded) \cup declared
Inferred(dyn) == DefaultFlag \ dyn
Counted(dyn) == dyn \cup Inferred(dyn)

\* Complex values of all the constituents; interp: id -> interpolated value
ValuesOf(interp, dyn) ==
  LET v0 == [id \in Ids |-> IF id \in DOMAIN interp THEN interp[id] ELSE CZero]
  IN Infer(v0, Inferred(dyn))

\* The part of each constituent for elements a
Synth(v, a, f, id) ==
  LET phi == V(W(id), a) \oplus U(W(id), a)
  IN f[id] \otimes ((v[id][1] \otimes RCos(phi)) \oplus
                    (v[id][2] \otimes RSin(phi)))
RECURSIVE SumOver(_, _)
SumOver(s, part) == IF s = {} THEN Zero
                    ELSE LET id == CHOOSE x \in s : TRUE
                         IN part[id] \oplus SumOver(s \ {id}, part)

\* <<tide, sum over long-period constituents, sum of |values|>>
Synthesis(interp, dyn, a) ==
  LET v == ValuesOf(interp, dyn)
      f == AllF(a)
      short == {id \in Counted(dyn) : ~W(id).long}
      long == {id \in Counted(dyn) : W(id).long}
      part == [id \in Counted(dyn) |-> Synth(v, a, f, id)]
      mag == [id \in Counted(dyn) |-> RAbs(v[id][1]) \oplus RAbs(v[id][2])]
  IN <<SumOver(short, part), SumOver(long, part), SumOver(Counted(dyn), mag)>>
=============================================================================
