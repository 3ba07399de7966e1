------------------------------ MODULE Admittance ------------------------------
(***************************************************************************)
(* Constituents inferred by admittance from the major ones: R. Ray's       *)
(* perth2 (diurnal) and perth3 (semi-diurnal) relations, the Grenoble      *)
(* relations using 2N2, and the spline admittances of GRL 18(5):845-848.   *)
(* The relations are applied in order: 2N2 may itself be inferred.         *)
(***************************************************************************)
EXTENDS Constituents

R(name, terms) == [name |-> name, terms |-> terms]
Relations == <<
  R("2Q1",    << <<"0.263", "Q1">>, <<"-0.0252", "O1">> >>),
  R("Sigma1", << <<"0.297", "Q1">>, <<"-0.0264", "O1">> >>),
  R("Rho1",   << <<"0.164", "Q1">>, <<"0.0048", "O1">> >>),
  R("M11",    << <<"0.0389", "O1">>, <<"0.0282", "K1">> >>),
  R("M12",    << <<"0.0140", "O1">>, <<"0.0101", "K1">> >>),
  R("Chi1",   << <<"0.0064", "O1">>, <<"0.0060", "K1">> >>),
  R("Pi1",    << <<"0.0030", "O1">>, <<"0.0171", "K1">> >>),
  R("Phi1",   << <<"-0.0015", "O1">>, <<"0.0152", "K1">> >>),
  R("Theta1", << <<"-0.0065", "O1">>, <<"0.0155", "K1">> >>),
  R("J1",     << <<"-0.0389", "O1">>, <<"0.0836", "K1">> >>),
  R("OO1",    << <<"-0.0431", "O1">>, <<"0.0613", "K1">> >>),
  R("2N2",    << <<"0.264", "N2">>, <<"-0.0253", "M2">> >>),
  R("Eps2",   << <<"0.53285", "2N2">>, <<"-0.03304", "N2">> >>),
  R("Eta2",   << <<"-0.0034925", "M2">>, <<"0.0831707", "K2">> >>),
  R("Mu2",     << <<"0.069439968323", "K2">>, <<"0.351535557706", "N2">>,
                  <<"-0.046278307672", "M2">> >>),
  R("Nu2",     << <<"-0.006104695053", "K2">>, <<"0.156878802427", "N2">>,
                  <<"0.006755704028", "M2">> >>),
  R("Lambda2", << <<"0.016503557465", "K2">>, <<"-0.013307812292", "N2">>,
                  <<"0.007753383202", "M2">> >>),
  R("L2",      << <<"0.077137765667", "K2">>, <<"-0.051653455134", "N2">>,
                  <<"0.027869916824", "M2">> >>),
  R("T2",      << <<"0.180480173707", "K2">>, <<"-0.020101177502", "N2">>,
                  <<"0.008331518844", "M2">> >>)
>>

NRel == Len(Relations)
RelId == [k \in 1..NRel |-> IdOf(Relations[k].name)]
RelTerms == [k \in 1..NRel |->
  [j \in 1..Len(Relations[k].terms) |->
     <<RLit(Relations[k].terms[j][1]), IdOf(Relations[k].terms[j][2])>>]]
Related == {RelId[k] : k \in 1..NRel}
RelOf(id) == CHOOSE k \in 1..NRel : RelId[k] = id
Majors == {IdOf(x) : x \in {"Q1", "O1", "K1", "N2", "M2", "K2"}}

RECURSIVE Combine(_, _, _)
Combine(terms, v, j) ==
  IF j > Len(terms) THEN CZero
  ELSE CAdd(CScale(terms[j][1], v[terms[j][2]]), Combine(terms, v, j + 1))

\* v: id -> value; flag: ids marked as inferable by admittance
RECURSIVE InferFrom(_, _, _)
InferFrom(v, flag, k) ==
  IF k > NRel THEN v
  ELSE InferFrom(IF RelId[k] \in flag
                 THEN [v EXCEPT ![RelId[k]] = Combine(RelTerms[k], v, 1)]
                 ELSE v, flag, k + 1)
Infer(v, flag) == InferFrom(v, flag, 1)

\* The constituents that are inferable in a new table
DefaultFlag == {id \in Ids : W(id).admit}
=============================================================================
