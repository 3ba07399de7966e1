----------------------------- MODULE Constituents -----------------------------
(***************************************************************************)
(* The 75 constituents: Schureman, table 2, and the documentation of the   *)
(* library (classes of namespace fes::wave).                               *)
(*                                                                         *)
(* V  = T.T + s.s + h.h + p.p + p1.p1 + q * 90 degrees                     *)
(* u  = xi.xi + nu.nu + nup.nu' + nus.nu'' (+ extra)                       *)
(* f  = node factor named f                                                *)
(* The frequency is the one of the same combination (without q).           *)
(* "long" tells the long-period constituents (no T), "admit" those which   *)
(* are inferred by admittance when no data is available for them.          *)
(***************************************************************************)
EXTENDS Astronomy

Waves == <<
  [id |-> 0, name |-> "Mm", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 1, h |-> 0, p |-> -1, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mm", extra |-> ""],
  [id |-> 1, name |-> "Mf", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 2, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> -2, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mf", extra |-> ""],
  [id |-> 2, name |-> "Mtm", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 3, h |-> 0, p |-> -1, p1 |-> 0,
   q |-> 0, xi |-> -2, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mf", extra |-> ""],
  [id |-> 3, name |-> "Msqm", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 4, h |-> -2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> -2, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mf", extra |-> ""],
  [id |-> 4, name |-> "2Q1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -4, h |-> 1, p |-> 2, p1 |-> 0,
   q |-> 1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 5, name |-> "Sigma1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -4, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> 1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 6, name |-> "Q1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> -3, h |-> 1, p |-> 1, p1 |-> 0,
   q |-> 1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 7, name |-> "Rho1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -3, h |-> 3, p |-> -1, p1 |-> 0,
   q |-> 1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 8, name |-> "O1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> -2, h |-> 1, p |-> 0, p1 |-> 0,
   q |-> 1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 9, name |-> "MP1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> -2, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "J1", extra |-> ""],
  [id |-> 10, name |-> "M11", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -1, h |-> 1, p |-> 1, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "J1", extra |-> ""],
  [id |-> 11, name |-> "M12", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -1, h |-> 1, p |-> -1, p1 |-> 0,
   q |-> -1, xi |-> 2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "O1", extra |-> ""],
  [id |-> 12, name |-> "M13", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> -1, h |-> 1, p |-> 1, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "M1", extra |-> "M13"],
  [id |-> 13, name |-> "Chi1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> -1, h |-> 3, p |-> -1, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "J1", extra |-> ""],
  [id |-> 14, name |-> "Pi1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> 0, h |-> -2, p |-> 0, p1 |-> 1,
   q |-> 1, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 15, name |-> "P1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> 0, h |-> -1, p |-> 0, p1 |-> 0,
   q |-> 1, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 16, name |-> "S1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> 0, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 17, name |-> "K1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> 0, h |-> 1, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> 0, nup |-> -1, nus |-> 0, f |-> "K1", extra |-> ""],
  [id |-> 18, name |-> "Psi1", long |-> FALSE, admit |-> FALSE, T |-> 1, s |-> 0, h |-> 2, p |-> 0, p1 |-> -1,
   q |-> -1, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 19, name |-> "Phi1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> 0, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 20, name |-> "Theta1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> 1, h |-> -1, p |-> 1, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "J1", extra |-> ""],
  [id |-> 21, name |-> "J1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> 1, h |-> 1, p |-> -1, p1 |-> 0,
   q |-> -1, xi |-> 0, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "J1", extra |-> ""],
  [id |-> 22, name |-> "OO1", long |-> FALSE, admit |-> TRUE, T |-> 1, s |-> 2, h |-> 1, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> -2, nu |-> -1, nup |-> 0, nus |-> 0, f |-> "OO1", extra |-> ""],
  [id |-> 23, name |-> "MNS2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -5, h |-> 4, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 24, name |-> "Eps2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -5, h |-> 4, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 25, name |-> "2N2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -4, h |-> 2, p |-> 2, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 26, name |-> "Mu2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -4, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 27, name |-> "2MS2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -4, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 28, name |-> "N2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -3, h |-> 2, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 29, name |-> "Nu2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -3, h |-> 4, p |-> -1, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 30, name |-> "M2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -2, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 31, name |-> "MKS2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -2, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> -2, f |-> "M2*K2", extra |-> ""],
  [id |-> 32, name |-> "Lambda2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -1, h |-> 0, p |-> 1, p1 |-> 0,
   q |-> 2, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 33, name |-> "L2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> -1, h |-> 2, p |-> -1, p1 |-> 0,
   q |-> 2, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "L2", extra |-> "L2"],
  [id |-> 34, name |-> "2MN2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> -1, h |-> 2, p |-> -1, p1 |-> 0,
   q |-> 2, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2^3", extra |-> ""],
  [id |-> 35, name |-> "T2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> 0, h |-> -1, p |-> 0, p1 |-> 1,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 36, name |-> "S2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> 0, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 37, name |-> "R2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> 0, h |-> 1, p |-> 0, p1 |-> -1,
   q |-> 2, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 38, name |-> "K2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> 0, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> -2, f |-> "K2", extra |-> ""],
  [id |-> 39, name |-> "MSN2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> 1, h |-> 0, p |-> -1, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 40, name |-> "Eta2", long |-> FALSE, admit |-> TRUE, T |-> 2, s |-> 1, h |-> 2, p |-> -1, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "KJ2", extra |-> ""],
  [id |-> 41, name |-> "2SM2", long |-> FALSE, admit |-> FALSE, T |-> 2, s |-> 2, h |-> -2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> -2, nu |-> 2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 42, name |-> "MO3", long |-> FALSE, admit |-> FALSE, T |-> 3, s |-> -4, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> 1, xi |-> 4, nu |-> -3, nup |-> 0, nus |-> 0, f |-> "M2*O1", extra |-> ""],
  [id |-> 43, name |-> "2MK3", long |-> FALSE, admit |-> FALSE, T |-> 3, s |-> -4, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> 1, xi |-> 4, nu |-> -4, nup |-> 1, nus |-> 0, f |-> "M2^2*K1", extra |-> ""],
  [id |-> 44, name |-> "M3", long |-> FALSE, admit |-> FALSE, T |-> 3, s |-> -3, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 3, nu |-> -3, nup |-> 0, nus |-> 0, f |-> "M3", extra |-> ""],
  [id |-> 45, name |-> "MK3", long |-> FALSE, admit |-> FALSE, T |-> 3, s |-> -2, h |-> 3, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> 2, nu |-> -2, nup |-> -1, nus |-> 0, f |-> "M2*K1", extra |-> ""],
  [id |-> 46, name |-> "N4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -6, h |-> 4, p |-> 2, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 47, name |-> "MN4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -5, h |-> 4, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 48, name |-> "M4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -4, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 49, name |-> "SN4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -3, h |-> 2, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 50, name |-> "MS4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -2, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 51, name |-> "MK4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> -2, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> -2, nus |-> 0, f |-> "M2*K2", extra |-> ""],
  [id |-> 52, name |-> "S4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> 0, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 53, name |-> "SK4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> 0, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> -2, f |-> "K2", extra |-> ""],
  [id |-> 54, name |-> "R4", long |-> FALSE, admit |-> FALSE, T |-> 4, s |-> 0, h |-> 2, p |-> 0, p1 |-> -2,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 55, name |-> "2MN6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -7, h |-> 6, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 6, nu |-> -6, nup |-> 0, nus |-> 0, f |-> "M2^3", extra |-> ""],
  [id |-> 56, name |-> "M6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -6, h |-> 6, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 6, nu |-> -6, nup |-> 0, nus |-> 0, f |-> "M2^3", extra |-> ""],
  [id |-> 57, name |-> "MSN6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -5, h |-> 4, p |-> 1, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 58, name |-> "2MS6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -4, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> 0, f |-> "M2^2", extra |-> ""],
  [id |-> 59, name |-> "2MK6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -4, h |-> 6, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 4, nu |-> -4, nup |-> 0, nus |-> -2, f |-> "M2^2*K2", extra |-> ""],
  [id |-> 60, name |-> "2SM6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -2, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 61, name |-> "MSK6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> -2, h |-> 4, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> -2, nus |-> 0, f |-> "M2*K2", extra |-> ""],
  [id |-> 62, name |-> "S6", long |-> FALSE, admit |-> FALSE, T |-> 6, s |-> 0, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 63, name |-> "M8", long |-> FALSE, admit |-> FALSE, T |-> 8, s |-> -8, h |-> 8, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 8, nu |-> -8, nup |-> 0, nus |-> 0, f |-> "M2^4", extra |-> ""],
  [id |-> 64, name |-> "MSf", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 2, h |-> -2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 2, nu |-> -2, nup |-> 0, nus |-> 0, f |-> "M2", extra |-> ""],
  [id |-> 65, name |-> "Ssa", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 0, h |-> 2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 66, name |-> "Sa", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 0, h |-> 1, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 67, name |-> "Sa1", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 0, h |-> 1, p |-> 0, p1 |-> -1,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 68, name |-> "Sta", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 0, h |-> 3, p |-> 0, p1 |-> -1,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "1", extra |-> ""],
  [id |-> 69, name |-> "Mm1", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 1, h |-> 0, p |-> 1, p1 |-> 0,
   q |-> 2, xi |-> -2, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mf", extra |-> ""],
  [id |-> 70, name |-> "Mf1", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 2, h |-> 0, p |-> -2, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mm", extra |-> ""],
  [id |-> 71, name |-> "A5", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 2, h |-> -2, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mm", extra |-> ""],
  [id |-> 72, name |-> "M0", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 0, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> 0, xi |-> 0, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "Mm", extra |-> ""],
  [id |-> 73, name |-> "Mm2", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 1, h |-> 0, p |-> 0, p1 |-> 0,
   q |-> -1, xi |-> -1, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "141", extra |-> ""],
  [id |-> 74, name |-> "Mf2", long |-> TRUE, admit |-> FALSE, T |-> 0, s |-> 2, h |-> 0, p |-> -1, p1 |-> 0,
   q |-> -1, xi |-> -1, nu |-> 0, nup |-> 0, nus |-> 0, f |-> "141", extra |-> ""]
>>

N == Len(Waves)
Ids == 0..(N - 1)
W(id) == Waves[id + 1]
NameOf(id) == W(id).name
IdOf(name) == CHOOSE id \in Ids : NameOf(id) = name

(***************************************************************************)
(* Argument and nodal corrections for astronomical elements a              *)
(***************************************************************************)
V(w, a) ==
  RSum(<< RInt(w.T) \otimes a.t, RInt(w.s) \otimes a.s, RInt(w.h) \otimes a.h,
          RInt(w.p) \otimes a.p, RInt(w.p1) \otimes a.p1,
          RInt(w.q) \otimes HalfPi >>)

\* Schureman, formula 197 (1/Qa)
InvQa(a) == RSqrt(RLit("2.310") \oplus
                  (RLit("1.435") \otimes RCos(Two \otimes (a.p \ominus a.xi))))

U(w, a) ==
  LET u0 == RSum(<< RInt(w.xi) \otimes a.xi, RInt(w.nu) \otimes a.nu,
                    RInt(w.nup) \otimes a.nup, RInt(w.nus) \otimes a.nus >>)
  IN CASE w.extra = "L2" -> u0 \ominus a.r
       [] w.extra = "M13" -> u0 \ominus Rad(One \oslash InvQa(a))
       [] OTHER -> u0

RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN One ELSE x \otimes IPow(x, k - 1)

FM2(a) == IPow(RCos(a.i \otimes Half), 4) \oslash RLit("0.9154")
FO1(a) == (RSin(a.i) \otimes Sq(RCos(a.i \otimes Half))) \oslash RLit("0.3800")
FK1(a) == LET s2i == RSin(Two \otimes a.i) IN
  RSqrt(((RLit("0.8965") \otimes Sq(s2i)) \oplus
         ((RLit("0.6001") \otimes s2i) \otimes RCos(a.nu))) \oplus
        RLit("0.1006"))
FK2(a) == LET si2 == Sq(RSin(a.i)) IN
  RSqrt(((RLit("19.0444") \otimes Sq(si2)) \oplus
         ((RLit("2.7702") \otimes si2) \otimes RCos(Two \otimes a.nu))) \oplus
        RLit("0.0981"))

Factor(f, a) ==
  CASE f = "1" -> One
    [] f = "Mm" -> ((RInt(2) \oslash RInt(3)) \ominus Sq(RSin(a.i))) \oslash
                   RLit("0.5021")
    [] f = "Mf" -> Sq(RSin(a.i)) \oslash RLit("0.1578")
    [] f = "O1" -> FO1(a)
    [] f = "J1" -> RSin(Two \otimes a.i) \oslash RLit("0.7214")
    [] f = "M1" -> FO1(a) \otimes InvQa(a)
    [] f = "K1" -> FK1(a)
    [] f = "OO1" -> (RSin(a.i) \otimes Sq(RSin(a.i \otimes Half))) \oslash
                    RLit("0.0164")
    [] f = "M2" -> FM2(a)
    [] f = "M2^2" -> IPow(FM2(a), 2)
    [] f = "M2^3" -> IPow(FM2(a), 3)
    [] f = "M2^4" -> IPow(FM2(a), 4)
    [] f = "K2" -> FK2(a)
    [] f = "L2" -> FM2(a) \otimes a.x1ra
    [] f = "KJ2" -> Sq(RSin(a.i)) \oslash RLit("0.1565")
    [] f = "M3" -> IPow(RCos(a.i \otimes Half), 6) \oslash RLit("0.8758")
    [] f = "141" -> (RSin(a.i) \ominus (RLit("1.25") \otimes Cube(RSin(a.i))))
                    \oslash RLit("0.3192")
    [] f = "M2*K2" -> FM2(a) \otimes FK2(a)
    [] f = "M2*O1" -> FM2(a) \otimes FO1(a)
    [] f = "M2*K1" -> FM2(a) \otimes FK1(a)
    [] f = "M2^2*K1" -> IPow(FM2(a), 2) \otimes FK1(a)
    [] f = "M2^2*K2" -> IPow(FM2(a), 2) \otimes FK2(a)

F(w, a) == Factor(w.f, a)

FactorNames == {W(id).f : id \in Ids}
\* Node factors of all the constituents (each formula evaluated once)
AllF(a) == LET ff == [x \in FactorNames |-> Factor(x, a)]
           IN [id \in Ids |-> ff[W(id).f]]

(***************************************************************************)
(* Frequency (radians per hour), period (hours), Doodson number            *)
(***************************************************************************)
Century == RLit("3155760000")
PerHour(deg) == (RLit(deg) \oslash Century) \otimes RInt(3600)
SpeedS == PerHour("481267.892")     \* 1336 * 360 + 307.892
SpeedH == PerHour("36000.769")      \* 100 * 360 + 0.769
SpeedP == PerHour("4069.032")       \* 11 * 360 + 109.032
SpeedP1 == PerHour("1.719")
Freq(w) ==
  Rad(RSum(<< RInt(15 * w.T), RInt(w.s) \otimes SpeedS,
              RInt(w.h) \otimes SpeedH, RInt(w.p) \otimes SpeedP,
              RInt(w.p1) \otimes SpeedP1 >>))
Period(w) == TwoPi \oslash Freq(w)

\* T, s, h, p, N, p1 with 5 added to all but the first.  (The library counts
\* in mean solar time: its first three digits are those of T, s, h, not of
\* Doodson's tau, s, h.)  The notation has no symbol for values outside -1..12
\* (s and h of M8, s of 2MN6): any character may stand there.
HasDigit(k) == k \in -1..12
Digit(k) == CASE k = -1 -> "*" [] k = 10 -> "X" [] k = 11 -> "E"
              [] k = 12 -> "T"
              [] k \in 0..9 -> ToString(k)
IsDoodson(str, w) ==
  LET d == <<w.T, w.s + 5, w.h + 5, w.p + 5, 5, w.p1 + 5>>
  IN /\ Len(str) = 6
     /\ \A k \in 1..6 : HasDigit(d[k]) => SubSeq(str, k, k) = Digit(d[k])
=============================================================================
