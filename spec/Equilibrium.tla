----------------------------- MODULE Equilibrium -----------------------------
(***************************************************************************)
(* Long-period equilibrium ocean tide (Cartwright-Tayler-Edden lines, mass *)
(* conservation of FES2014c), in centimetres.                              *)
(*                                                                         *)
(* L(<<s, h, p, N', p1>>, amplitude in metres, wave): N' = -N; "wave" is   *)
(* the long-period constituent the line belongs to, "" if there is none.   *)
(***************************************************************************)
EXTENDS Constituents

L(k, c, w) == [k |-> k, c |-> RLit(c), w |-> w]

Order2 == <<
  L(<<0, 0, 0, 1, 0>>, "0.02793", "M0"),
  L(<<0, 0, 0, 2, 0>>, "-0.00027", "M0"),
  L(<<0, 0, 2, 1, 0>>, "0.00004", ""),
  L(<<0, 1, 0, -1, -1>>, "-0.00004", "Sa1"),
  L(<<0, 1, 0, 0, -1>>, "-0.00492", "Sa1"),
  L(<<0, 1, 0, 0, 1>>, "0.00026", ""),
  L(<<0, 1, 0, 1, -1>>, "0.00005", "Sa1"),
  L(<<0, 2, -2, -1, 0>>, "0.00002", ""),
  L(<<0, 2, -2, 0, 0>>, "-0.00031", ""),
  L(<<0, 2, 0, 0, 0>>, "-0.03095", "Ssa"),
  L(<<0, 2, 0, 0, -2>>, "-0.00008", ""),
  L(<<0, 2, 0, 1, 0>>, "0.00077", "Ssa"),
  L(<<0, 2, 0, 2, 0>>, "0.00017", "Ssa"),
  L(<<0, 3, 0, 0, -1>>, "-0.00181", "Sta"),
  L(<<0, 3, 0, 1, -1>>, "0.00003", "Sta"),
  L(<<0, 4, 0, 0, -2>>, "-0.00007", ""),
  L(<<1, -3, 1, -1, 1>>, "0.00002", ""),
  L(<<1, -3, 1, 0, 1>>, "-0.00029", ""),
  L(<<1, -3, 1, 1, 1>>, "0.00002", ""),
  L(<<1, -2, -1, -2, 0>>, "0.00003", ""),
  L(<<1, -2, -1, -1, 0>>, "0.00007", ""),
  L(<<1, -2, 1, -1, 0>>, "0.00048", ""),
  L(<<1, -2, 1, 0, 0>>, "-0.00673", ""),
  L(<<1, -2, 1, 1, 0>>, "0.00043", ""),
  L(<<1, -1, -1, -1, 1>>, "0.00002", ""),
  L(<<1, -1, -1, 0, 1>>, "-0.00021", ""),
  L(<<1, -1, -1, 1, 1>>, "0.00000", ""),
  L(<<1, -1, 0, 0, 0>>, "0.00020", ""),
  L(<<1, -1, 1, 0, -1>>, "0.00005", ""),
  L(<<1, 0, -1, -2, 0>>, "-0.00003", "Mm"),
  L(<<1, 0, -1, -1, 0>>, "0.00231", "Mm"),
  L(<<1, 0, -1, 0, 0>>, "-0.03518", "Mm"),
  L(<<1, 0, -1, 1, 0>>, "0.00228", "Mm"),
  L(<<1, 0, 1, 0, 0>>, "0.00189", "Mm1"),
  L(<<1, 0, 1, 1, 0>>, "0.00077", "Mm1"),
  L(<<1, 0, 1, 2, 0>>, "0.00021", "Mm1"),
  L(<<1, 1, -1, 0, -1>>, "0.00018", ""),
  L(<<1, 2, -1, 0, 0>>, "0.00049", ""),
  L(<<1, 2, -1, 1, 0>>, "0.00024", ""),
  L(<<1, 2, -1, 2, 0>>, "0.00004", ""),
  L(<<1, 3, -1, 0, -1>>, "0.00003", ""),
  L(<<2, -4, 2, 0, 0>>, "-0.00011", ""),
  L(<<2, -3, 0, 0, 1>>, "-0.00038", ""),
  L(<<2, -3, 0, 1, 1>>, "0.00002", ""),
  L(<<2, -2, 0, -1, 0>>, "-0.00042", "A5"),
  L(<<2, -2, 0, 0, 0>>, "-0.00582", "A5"),
  L(<<2, -2, 0, 1, 0>>, "0.00037", "A5"),
  L(<<2, -2, 2, 0, 0>>, "0.00004", ""),
  L(<<2, -1, -2, 0, 1>>, "-0.00004", ""),
  L(<<2, -1, -1, 0, 0>>, "0.00003", ""),
  L(<<2, -1, 0, 0, -1>>, "0.00007", ""),
  L(<<2, -1, 0, 0, 1>>, "-0.00020", ""),
  L(<<2, -1, 0, 1, 1>>, "-0.00004", ""),
  L(<<2, 0, -2, -1, 0>>, "0.00015", "Mf1"),
  L(<<2, 0, -2, 0, 0>>, "-0.00288", "Mf1"),
  L(<<2, 0, -2, 1, 0>>, "0.00019", "Mf1"),
  L(<<2, 0, 0, 0, 0>>, "-0.06662", "Mf"),
  L(<<2, 0, 0, 1, 0>>, "-0.02762", "Mf"),
  L(<<2, 0, 0, 2, 0>>, "-0.00258", "Mf"),
  L(<<2, 0, 0, 3, 0>>, "0.00007", "Mf"),
  L(<<2, 1, -2, 0, -1>>, "0.00003", ""),
  L(<<2, 1, 0, 0, -1>>, "0.00023", ""),
  L(<<2, 1, 0, 1, -1>>, "0.00006", ""),
  L(<<2, 2, -2, 0, 0>>, "0.00020", ""),
  L(<<2, 2, -2, 1, 0>>, "0.00008", ""),
  L(<<2, 2, 0, 2, 0>>, "0.00003", ""),
  L(<<3, -5, 1, 0, 1>>, "-0.00002", ""),
  L(<<3, -4, 1, 0, 0>>, "-0.00017", ""),
  L(<<3, -3, -1, 0, 1>>, "-0.00007", ""),
  L(<<3, -3, 1, 0, 1>>, "-0.00012", ""),
  L(<<3, -3, 1, 1, 1>>, "-0.00004", ""),
  L(<<3, -2, -1, -1, 0>>, "-0.00010", ""),
  L(<<3, -2, -1, 0, 0>>, "-0.00091", ""),
  L(<<3, -2, -1, 1, 0>>, "0.00006", ""),
  L(<<3, -2, 1, 0, 0>>, "-0.00242", ""),
  L(<<3, -2, 1, 1, 0>>, "-0.00100", ""),
  L(<<3, -2, 1, 2, 0>>, "-0.00009", ""),
  L(<<3, -1, -1, 0, 1>>, "-0.00013", ""),
  L(<<3, -1, -1, 1, 1>>, "-0.00004", ""),
  L(<<3, -1, 0, 0, 0>>, "0.00006", ""),
  L(<<3, -1, 0, 1, 0>>, "0.00003", ""),
  L(<<3, -1, 1, 0, -1>>, "0.00003", ""),
  L(<<3, 0, -3, 0, 0>>, "-0.00023", ""),
  L(<<3, 0, -3, 1, -1>>, "0.00004", ""),
  L(<<3, 0, -3, 1, 1>>, "0.00004", ""),
  L(<<3, 0, -1, 0, 0>>, "-0.01275", "Mtm"),
  L(<<3, 0, -1, 1, 0>>, "-0.00528", "Mtm"),
  L(<<3, 0, -1, 2, 0>>, "-0.00051", "Mtm"),
  L(<<3, 0, 1, 2, 0>>, "0.00005", ""),
  L(<<3, 0, 1, 3, 0>>, "0.00002", ""),
  L(<<3, 1, -1, 0, -1>>, "0.00011", ""),
  L(<<3, 1, -1, 1, -1>>, "0.00004", ""),
  L(<<4, -4, 0, 0, 0>>, "-0.00008", ""),
  L(<<4, -4, 2, 0, 0>>, "-0.00006", ""),
  L(<<4, -4, 2, 1, 0>>, "-0.00002", ""),
  L(<<4, -3, 0, 0, 1>>, "-0.00014", ""),
  L(<<4, -3, 0, 1, 1>>, "-0.00006", ""),
  L(<<4, -2, -2, 0, 0>>, "-0.00011", ""),
  L(<<4, -2, 0, 0, 0>>, "-0.00205", "Msqm"),
  L(<<4, -2, 0, 1, 0>>, "-0.00085", "Msqm"),
  L(<<4, -2, 0, 2, 0>>, "-0.00008", "Msqm"),
  L(<<4, -1, -2, 0, 1>>, "-0.00003", ""),
  L(<<4, -1, 0, 0, -1>>, "0.00003", ""),
  L(<<4, 0, -2, 0, 0>>, "-0.00169", ""),
  L(<<4, 0, -2, 1, 0>>, "-0.00070", ""),
  L(<<4, 0, -2, 2, 0>>, "-0.00006", "")
>>

Order3 == <<
  L(<<0, 0, 1, 0, 0>>, "-0.00021", ""),
  L(<<0, 2, -1, 0, 0>>, "-0.00004", ""),
  L(<<1, -2, 0, 0, 0>>, "0.00004", ""),
  L(<<1, 0, 0, -1, 0>>, "0.00019", "Mm2"),
  L(<<1, 0, 0, 0, 0>>, "-0.00375", "Mm2"),
  L(<<1, 0, 0, 1, 0>>, "-0.00059", "Mm2"),
  L(<<1, 0, 0, 2, 0>>, "0.00005", "Mm2"),
  L(<<2, -2, 1, 0, 0>>, "-0.00012", ""),
  L(<<2, 0, -1, 0, 0>>, "-0.00061", "Mf2"),
  L(<<2, 0, -1, 1, 0>>, "-0.00010", "Mf2"),
  L(<<3, -2, 0, 0, 0>>, "-0.00010", ""),
  L(<<3, 0, -2, 0, 0>>, "-0.00007", ""),
  L(<<3, 0, 0, 0, 0>>, "-0.00030", ""),
  L(<<3, 0, 0, 1, 0>>, "-0.00019", ""),
  L(<<3, 0, 0, 2, 0>>, "-0.00004", ""),
  L(<<4, 0, -1, 0, 0>>, "-0.00008", ""),
  L(<<4, 0, -1, 1, 0>>, "-0.00005", "")
>>

Lines == Order2 \o Order3
LineWaves == {Lines[i].w : i \in 1..Len(Lines)} \ {""}
\* The line of a wave that has its own argument is its principal one: the
\* others of the group only differ by N' or p1.
Principal(l) == l.k[4] = 0 /\ l.w # ""
\* Waves whose secondary lines may be left in the spectrum: those of Sa1 and
\* Sta are less than 0.05 mm; the spectrum has only modulations of M0, the
\* permanent tide, and not M0 itself.
Loose == {"Sa1", "Sta", "M0"}

Phase(l, a) ==
  RSum(<< RInt(l.k[1]) \otimes a.s, RInt(l.k[2]) \otimes a.h,
          RInt(l.k[3]) \otimes a.p, RInt(l.k[4]) \otimes (TwoPi \ominus a.n),
          RInt(l.k[5]) \otimes a.p1 >>)

\* Is line l summed when the waves dyn are computed dynamically?
Kept(l, dyn, loose) ==
  \/ l.w \notin dyn
  \/ ~Principal(l) /\ l.w \in loose

H20(a, dyn, loose) ==
  RSum([i \in 1..Len(Order2) |->
     IF Kept(Order2[i], dyn, loose)
     THEN RCos(Phase(Order2[i], a)) \otimes Order2[i].c ELSE Zero])
H30(a, dyn, loose) ==
  RSum([i \in 1..Len(Order3) |->
     IF Kept(Order3[i], dyn, loose)
     THEN RSin(Phase(Order3[i], a)) \otimes Order3[i].c ELSE Zero])

C20(lat) == LET y == RSin(Rad(lat)) IN
  (RSqrt(RInt(5) \oslash (RInt(4) \otimes Pi)) \otimes
   ((RLit("1.5") \otimes Sq(y)) \ominus Half)) \oplus RLit("0.014432247")
C30(lat) == LET y == RSin(Rad(lat)) IN
  (RSqrt(RInt(7) \oslash (RInt(4) \otimes Pi)) \otimes
   (((RLit("2.5") \otimes Sq(y)) \ominus RLit("1.5")) \otimes y))
  \ominus RLit("0.012469818")
Gamma2 == RLit("0.693")    \* 1 - h2 + k2 = 1 - 0.609 + 0.302
Gamma3 == RLit("0.802")    \* 1 - h3 + k3 = 1 - 0.291 + 0.093

Lpe(a, lat, dyn, loose) ==
  RInt(100) \otimes
  (((Gamma2 \otimes C20(lat)) \otimes H20(a, dyn, loose)) \oplus
   ((Gamma3 \otimes C30(lat)) \otimes H30(a, dyn, loose)))

\* Is x the equilibrium tide when the constituents ids are dynamic?
DynWaves(ids) == {NameOf(id) : id \in ids} \cap LineWaves
IsLpe(x, a, lat, ids, tol) ==
  LET dyn == DynWaves(ids)
  IN \E loose \in SUBSET (Loose \cap dyn) :
       RNear(x, Lpe(a, lat, dyn, loose), tol)
=============================================================================
