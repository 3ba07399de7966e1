-------------------------- MODULE ConstituentsModel --------------------------
(***************************************************************************)
(* Validation of the oracle itself: the astronomical elements and the      *)
(* table of constituents are walked through dates (one every Step hours)   *)
(* and checked against relations they are not built from:                  *)
(*  - the lunar intersection solves the spherical triangle made by the     *)
(*    lunar orbit (i = 5.145 deg), the ecliptic and the equator            *)
(*    (omega = 23.452 deg);                                                *)
(*  - over an hour V advances by the frequency;                            *)
(*  - a compound constituent is the sum of its components, and its node    *)
(*    factor their product;                                                *)
(*  - the node factors stay within the known range around 1;               *)
(*  - the three sets of formulae describe the same sky.                    *)
(***************************************************************************)
EXTENDS Constituents
CONSTANTS Steps, StepHours
VARIABLE k

\* Several walks side by side, of Block dates each
Block == 25
Init == k \in {j * Block : j \in 0..((Steps \div Block) - 1)}
Next == (k + 1) % Block # 0 /\ k' = k + 1

Epoch0 == RLit("-1577923200")   \* 1919-12-31T12:00
Epoch(j) == Epoch0 \oplus (RInt(j) \otimes (RInt(StepHours) \otimes RInt(3600)))
Leap == RInt(37)
A(f) == Elements(f, Epoch(k), Leap)
A3 == A("schureman3")
Next1h == Elements("schureman3", Epoch(k) \oplus RInt(3600), Leap)

Orb == Rad(RLit("5.145"))
Obl == Rad(RLit("23.452"))
Triangle ==
  LET a == A3
      cosI == (RCos(Orb) \otimes RCos(Obl)) \ominus
              ((RSin(Orb) \otimes RSin(Obl)) \otimes RCos(a.n))
      c == RCos(Half \otimes (Obl \ominus Orb)) \oslash
           RCos(Half \otimes (Obl \oplus Orb))
      d == RSin(Half \otimes (Obl \ominus Orb)) \oslash
           RSin(Half \otimes (Obl \oplus Orb))
      \* sine rule: sin(nu) sin(I) = sin(i) sin(N)
  IN /\ RClose(RCos(a.i), cosI, RLit("2e-5"))
     /\ RClose(c, RLit("1.01883"), RLit("1e-5"))
     /\ RClose(d, RLit("0.64412"), RLit("1e-5"))
     /\ RClose(RSin(a.nu) \otimes RSin(a.i), RSin(Orb) \otimes RSin(a.n),
               RLit("1e-4"))
     \* four-part relation on the side xi (N - xi along the orbit)
     /\ RClose(RSin(a.n \ominus a.xi) \otimes RSin(a.i),
               RSin(Obl) \otimes RSin(a.n), RLit("1e-4"))
     /\ RAbs(a.xi) \prec Rad(RInt(13)) /\ RAbs(a.nu) \prec Rad(RInt(14))
     /\ RAbs(a.nup) \prec Rad(RInt(10)) /\ RAbs(a.nus) \prec Rad(RInt(10))
     /\ a.i \succ Rad(RInt(18)) /\ a.i \prec Rad(RInt(29))

FrequencyIsRate ==
  LET a == A3
      b == Next1h
  IN \A id \in Ids :
       RCloseMod(V(W(id), b) \ominus V(W(id), a), Freq(W(id)), TwoPi,
                 RLit("2e-7"))

\* name |-> components with multiplicity
Compounds == <<
  <<"M4", <<"M2", "M2">>>>, <<"M6", <<"M2", "M2", "M2">>>>,
  <<"M8", <<"M2", "M2", "M2", "M2">>>>, <<"MN4", <<"M2", "N2">>>>,
  <<"N4", <<"N2", "N2">>>>, <<"MS4", <<"M2", "S2">>>>,
  <<"SN4", <<"S2", "N2">>>>, <<"S4", <<"S2", "S2">>>>,
  <<"SK4", <<"S2", "K2">>>>, <<"2MN6", <<"M2", "M2", "N2">>>>,
  <<"MSN6", <<"M2", "S2", "N2">>>>, <<"2MS6", <<"M2", "M2", "S2">>>>,
  <<"2MK6", <<"M2", "M2", "K2">>>>, <<"2SM6", <<"S2", "S2", "M2">>>>,
  <<"S6", <<"S2", "S2", "S2">>>>, <<"MO3", <<"M2", "O1">>>>,
  <<"MK3", <<"M2", "K1">>>> >>
CompoundsAdd ==
  LET a == A3 IN
  \A c \in {Compounds[j] : j \in 1..Len(Compounds)} :
    LET w == W(IdOf(c[1]))
        x(j) == W(IdOf(c[2][j]))
        vs == [j \in 1..Len(c[2]) |-> V(x(j), a)]
        us == [j \in 1..Len(c[2]) |-> U(x(j), a)]
        fs == [j \in 1..Len(c[2]) |-> F(x(j), a)]
        fr == [j \in 1..Len(c[2]) |-> Freq(x(j))]
        prod[j \in 0..Len(c[2])] == IF j = 0 THEN One
                                    ELSE prod[j - 1] \otimes fs[j]
    IN /\ RCloseMod(V(w, a), RSum(vs), TwoPi, RLit("1e-9"))
       /\ RClose(U(w, a), RSum(us), RLit("1e-9"))
       /\ RClose(F(w, a), prod[Len(c[2])], RLit("1e-9"))
       /\ RClose(Freq(w), RSum(fr), RLit("1e-12"))

FactorsInRange ==
  LET f == AllF(A3) IN
  \A id \in Ids : RLit("0.1") \prec f[id] /\ f[id] \prec RLit("2.6")

SameSky ==
  LET m == A("meeus")
      o == A("schureman1")
      s == A3
  IN /\ \A x \in {"s", "h", "p", "n"} :
          /\ RCloseMod(m[x], s[x], TwoPi, Rad(RLit("0.05")))
          /\ RCloseMod(o[x], s[x], TwoPi, Rad(RLit("0.06")))
     /\ RCloseMod(m.p1, s.p1, TwoPi, Rad(RLit("0.1")))
     /\ RCloseMod(o.p1, s.p1, TwoPi, Rad(RLit("0.1")))

ASSUME \A id \in Ids : W(id).id = id
ASSUME \A i, j \in Ids : NameOf(i) = NameOf(j) => i = j
ASSUME \A id \in Ids : W(id).long <=> (W(id).T = 0)
\* long period <=> slower than half a cycle per day
ASSUME \A id \in Ids : W(id).long <=> (Period(W(id)) \succ RInt(48))
=============================================================================
