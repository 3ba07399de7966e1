------------------------------ MODULE Astronomy ------------------------------
(***************************************************************************)
(* Astronomical arguments of the tide.                                     *)
(*                                                                         *)
(* Schureman, Manual of harmonic analysis and prediction of tides, 1958,   *)
(* p. 162 (mean longitudes), pp. 156, 41, 44-46 (lunar intersection).      *)
(* Meeus, Astronomical algorithms, 1998, chapter 47 (the epoch is given in *)
(* terrestrial dynamical time: UTC + (TAI-UTC) + 32.184 s).                *)
(* Epochs are seconds since 1970-01-01T00:00:00 UTC; angles are radians.   *)
(***************************************************************************)
EXTENDS Reals64, TLC

Formulae == {"schureman1", "schureman3", "meeus"}

Dms(d, m, sec) ==
  RInt(d) \oplus (RInt(m) \oslash RInt(60)) \oplus
  (RLit(sec) \oslash RInt(3600))
Turns(n, sec) == RInt(n * 360) \oplus (RLit(sec) \oslash RInt(3600))
Sec(sec) == RLit(sec) \oslash RInt(3600)

\* c[1] + c[2] x + c[3] x^2 + ...
RECURSIVE Poly(_, _, _)
Poly(c, x, k) == IF k > Len(c) THEN Zero
                 ELSE c[k] \oplus (x \otimes Poly(c, x, k + 1))

Schureman3 ==
  [n  |-> << Dms(259, 10, "57.12"), RNeg(Turns(5, "482912.63")),
             Sec("7.58"), Sec("0.008") >>,
   h  |-> << Dms(279, 41, "48.04"), Sec("129602768.13"), Sec("1.089") >>,
   s  |-> << Dms(270, 26, "14.72"), Turns(1336, "1108411.20"),
             Sec("9.09"), Sec("0.0068") >>,
   p1 |-> << Dms(281, 13, "15.0"), Sec("6189.03"), Sec("1.63"),
             Sec("0.012") >>,
   p  |-> << Dms(334, 19, "40.87"), Turns(11, "392515.94"),
             Sec("-37.24"), Sec("-0.045") >>]

Schureman1 == [k \in DOMAIN Schureman3 |-> SubSeq(Schureman3[k], 1, 2)]

MeeusD == << RLit("297.8501921"), RLit("445267.1114034"),
             RLit("-0.0018819"), One \oslash RInt(545868),
             RLit("-1") \oslash RInt(113065000) >>
MeeusG == << RLit("357.5291092"), RLit("35999.0502909"),
             RLit("-0.0001536"), One \oslash RInt(24490000) >>
MeeusS == << RLit("218.3164477"), RLit("481267.88123421"),
             RLit("-0.0015786"), One \oslash RInt(538841),
             RLit("-1") \oslash RInt(65194000) >>
MeeusN == << RLit("125.0445479"), RLit("-1934.1362891"),
             RLit("0.0020754"), One \oslash RInt(467441),
             RLit("-1") \oslash RInt(60616000) >>
MeeusP == << RLit("83.3532465"), RLit("4069.0137287"),
             RLit("-0.0103200"), RLit("-1") \oslash RInt(80053),
             One \oslash RInt(18999000) >>

\* Julian centuries since 1899-12-31T12:00 UT
T1900(epoch) == ((epoch \oslash RInt(86400)) \oplus RLit("25567.5")) \oslash
                RInt(36525)
\* Julian centuries since 2000-01-01T12:00 TDT
T2000(epoch, leap) ==
  (((epoch \oplus leap) \oplus RLit("32.184")) \ominus RInt(946728000))
  \oslash RLit("3155760000")

\* Mean longitudes, in degrees, not reduced
RawLongitudes(formulae, epoch, leap) ==
  IF formulae = "meeus"
  THEN LET t == T2000(epoch, leap)
           s == Poly(MeeusS, t, 1)
           h == s \ominus Poly(MeeusD, t, 1)
       IN [n |-> Poly(MeeusN, t, 1), s |-> s, h |-> h,
           p1 |-> h \ominus Poly(MeeusG, t, 1), p |-> Poly(MeeusP, t, 1)]
  ELSE LET c == IF formulae = "schureman1" THEN Schureman1 ELSE Schureman3
           t == T1900(epoch)
       IN [k \in {"n", "h", "s", "p1", "p"} |-> Poly(c[k], t, 1)]

\* Hour angle of the mean sun
HourAngle(epoch) ==
  Rad(RFMod(RInt(180) \oplus
            (RInt(15) \otimes (RFMod(epoch, RInt(86400)) \oslash RInt(3600))),
            RInt(360)))

\* The five longitudes in [0, 2 pi) and the hour angle
Longitudes(formulae, epoch, leap) ==
  LET raw == RawLongitudes(formulae, epoch, leap)
  IN [k \in {"n", "h", "s", "p1", "p", "t"} |->
        IF k = "t" THEN HourAngle(epoch) ELSE Rad(RMod(raw[k], RInt(360)))]

(***************************************************************************)
(* The lunar orbit and the equator: elements depending on N (and p).       *)
(***************************************************************************)
Inclination(n) == RAcos(RLit("0.91370") \ominus (RLit("0.03569") \otimes RCos(n)))
At1(n) == RAtan(RLit("1.01883") \otimes RTan(n \otimes Half))
At2(n) == RAtan(RLit("0.64412") \otimes RTan(n \otimes Half))

Derived(n, p) ==
  LET i == Inclination(n)
      a1 == At1(n)
      a2 == At2(n)
      xi0 == (n \ominus a1) \ominus a2
      xi == IF n \succ Pi THEN xi0 \ominus TwoPi ELSE xi0
      nu == a1 \ominus a2
      t2 == Sq(RTan(i \otimes Half))
      pp == Two \otimes (p \ominus xi)
      s2i == RSin(Two \otimes i)
      si2 == Sq(RSin(i))
  IN [i |-> i, xi |-> xi, nu |-> nu,
      x1ra |-> RSqrt(One \oplus (t2 \otimes ((RInt(36) \otimes t2) \ominus
                                  (RInt(12) \otimes RCos(pp))))),
      r |-> RAtan(RSin(pp) \oslash
                  ((One \oslash (RInt(6) \otimes t2)) \ominus RCos(pp))),
      nup |-> RAtan((s2i \otimes RSin(nu)) \oslash
                    ((s2i \otimes RCos(nu)) \oplus RLit("0.3347"))),
      nus |-> Half \otimes
              RAtan((si2 \otimes RSin(Two \otimes nu)) \oslash
                    ((si2 \otimes RCos(Two \otimes nu)) \oplus
                     RLit("0.0727")))]

\* All the elements of a date
Elements(formulae, epoch, leap) ==
  LET l == Longitudes(formulae, epoch, leap) IN l @@ Derived(l.n, l.p)

(***************************************************************************)
(* Comparison of recorded elements with the specification                  *)
(***************************************************************************)
AngleTol == RLit("2e-9")
InTurn(x) == RIsFinite(x) /\ Zero \preceq x /\ x \preceq TwoPi
SameLongitudes(got, want) ==
  \A k \in {"n", "h", "s", "p1", "p", "t"} :
    RCloseMod(got[k], want[k], TwoPi, AngleTol)
Normalised(got) ==
  /\ \A k \in {"n", "h", "s", "p1", "p"} : InTurn(got[k])
  /\ RIsFinite(got.t) /\ RAbs(got.t) \preceq TwoPi
SameDerived(got, want) ==
  \A k \in {"i", "xi", "nu", "x1ra", "r", "nup", "nus"} :
    RIsFinite(got[k]) /\ RClose(got[k], want[k], AngleTol)
=============================================================================
