-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Configuration files (C21).                                              *)
(*                                                                         *)
(* A map is a sequence of <<key, value>>.  A text is a sequence of parts,  *)
(* <<"t", literal>> or <<"v", name of an environment variable>>.  A value  *)
(* of the configuration is <<"text", text>>, <<"num", real>>,              *)
(* <<"list", texts>> or <<"map", map of texts>>.  A file is a map of       *)
(* variables [dims, shape, dtype, units, data].                            *)
(***************************************************************************)
EXTENDS Names, Reals64, FiniteSets

Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
Keys(m) == {m[i][1] : i \in 1..Len(m)}

(***************************************************************************)
(* Environment variables.  The result is <<defined, string>>.              *)
(***************************************************************************)
RECURSIVE Expand(_, _, _)
Expand(text, env, path) ==
  IF text = <<>> THEN <<TRUE, "">>
  ELSE LET p == Head(text)
           h == IF p[1] = "t" THEN <<TRUE, p[2]>>
                ELSE IF p[2] \in path \/ ~Has(env, p[2]) THEN <<FALSE, "">>
                ELSE Expand(Get(env, p[2]), env, path \cup {p[2]})
           r == Expand(Tail(text), env, path)
       IN <<h[1] /\ r[1], h[2] \o r[2]>>
Ok(text, env) == Expand(text, env, {})[1]
Str(text, env) == Expand(text, env, {})[2]
ValueOk(v, env) ==
  CASE v[1] = "text" -> Ok(v[2], env)
    [] v[1] = "list" -> \A i \in 1..Len(v[2]) : Ok(v[2][i], env)
    [] v[1] = "map" -> \A i \in 1..Len(v[2]) : Ok(v[2][i][2], env)
    [] OTHER -> TRUE
Plain(v, env) ==
  CASE v[1] = "text" -> Str(v[2], env)
    [] v[1] = "list" -> [i \in 1..Len(v[2]) |-> Str(v[2][i], env)]
    [] v[1] = "map" -> [i \in 1..Len(v[2]) |->
                          <<v[2][i][1], Str(v[2][i][2], env)>>]
    [] OTHER -> v[2]

(***************************************************************************)
(* A model section                                                         *)
(***************************************************************************)
Defaults(kind) ==
  << <<"latitude", "lat">>, <<"longitude", "lon">>, <<"dynamic", <<>>>> >> \o
  IF kind = "cartesian"
  THEN << <<"amplitude", "amplitude">>, <<"phase", "phase">>,
          <<"paths", <<>>>>, <<"epsilon", RLit("1e-6")>> >>
  ELSE << <<"amplitude", << <<"c">>, <<"t", "_amplitude">> >>>>,
          <<"phase", << <<"c">>, <<"t", "_phase">> >>>>,
          <<"constituents", <<>>>>, <<"codes", "codes">>,
          <<"max_distance", Zero>>, <<"path", "">>,
          <<"triangle", "triangle">>, <<"type", "lgp1">> >>
Keywords(kind) == Keys(Defaults(kind))
Field(m, k) == IF Has(m.fields, k)
               THEN Plain(Get(m.fields, k), m.env)
               ELSE Get(Defaults(m.kind), k)

Known(name) == Parse(name) # Unknown
Exact(name) == \E id \in Ids : NameOf(id) = name
Distinct(names) == \A i, j \in 1..Len(names) :
                     i # j => Parse(names[i]) # Parse(names[j])
DynamicOk(m) == \A i \in 1..Len(Field(m, "dynamic")) :
                  Exact(Field(m, "dynamic")[i])
Dynamic(m) == [i \in 1..Len(Field(m, "dynamic")) |->
                 Parse(Field(m, "dynamic")[i])]
Named(m, ks) == \A k \in ks : Field(m, k) # ""

Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                RNear(a[i], b[i], RLit("1e-9"))

Dtype(a, g) == IF a.dtype = "f4" /\ g.dtype = "f4" THEN "complex64"
               ELSE "complex128"

\* Cartesian
Names4(m) == {Field(m, k) : k \in {"longitude", "latitude", "amplitude",
                                   "phase"}}
GridOk(m, f) ==
  /\ \A n \in Names4(m) : Has(f, n)
  /\ LET lon == Get(f, Field(m, "longitude"))
         lat == Get(f, Field(m, "latitude"))
         amp == Get(f, Field(m, "amplitude"))
         pha == Get(f, Field(m, "phase"))
     IN /\ Len(amp.dims) = 2 /\ pha.dims = amp.dims /\ pha.shape = amp.shape
        /\ {amp.dims[1], amp.dims[2]} = {lon.dims[1], lat.dims[1]}
        /\ amp.shape = IF amp.dims[1] = lon.dims[1]
                       THEN <<Len(lon.data), Len(lat.data)>>
                       ELSE <<Len(lat.data), Len(lon.data)>>
SameGrid(m, f, g) ==
  /\ Same(Get(f, Field(m, "longitude")).data,
          Get(g, Field(m, "longitude")).data)
  /\ Same(Get(f, Field(m, "latitude")).data, Get(g, Field(m, "latitude")).data)
  /\ Get(f, Field(m, "amplitude")).shape = Get(g, Field(m, "amplitude")).shape
  /\ Dtype(Get(f, Field(m, "amplitude")), Get(f, Field(m, "phase"))) =
       Dtype(Get(g, Field(m, "amplitude")), Get(g, Field(m, "phase")))
Declared(m) == IF m.kind = "cartesian"
               THEN [i \in 1..Len(Field(m, "paths")) |->
                       Field(m, "paths")[i][1]]
               ELSE IF Field(m, "constituents") # <<>>
               THEN Field(m, "constituents")
               ELSE [i \in 1..75 |-> NameOf(i - 1)]
FileOf(m, i) == Get(m.files, Field(m, "paths")[i][2])
CartesianOk(m) ==
  /\ Named(m, {"longitude", "latitude", "amplitude", "phase"})
  /\ Field(m, "paths") # <<>>
  /\ \A i \in 1..Len(Field(m, "paths")) :
       /\ Has(m.files, Field(m, "paths")[i][2])
       /\ GridOk(m, FileOf(m, i))
       /\ i > 1 => SameGrid(m, FileOf(m, 1), FileOf(m, i))

\* LGP: the patterns of the variables are texts of <<"t", literal>>, <<"c">>
\* for the constituent and <<"x">> for any other field.
Pattern(m, k) == IF Has(m.fields, k) THEN m.patterns[k]
                 ELSE Get(Defaults("lgp"), k)
RECURSIVE Fill(_, _)
Fill(pat, name) ==
  IF pat = <<>> THEN ""
  ELSE (CASE Head(pat)[1] = "t" -> Head(pat)[2] [] OTHER -> name) \o
       Fill(Tail(pat), name)
PatternOk(pat) == \A i \in 1..Len(pat) : pat[i][1] # "x"
MaxCode(codes) == LET S == {codes[i] : i \in 1..Len(codes)}
                  IN CHOOSE x \in S : \A y \in S : y <= x
LgpOk(m) ==
  /\ Named(m, {"longitude", "latitude", "triangle", "codes", "path"})
  /\ Pattern(m, "amplitude") # <<>> /\ Pattern(m, "phase") # <<>>
  /\ PatternOk(Pattern(m, "amplitude")) /\ PatternOk(Pattern(m, "phase"))
  /\ Field(m, "type") \in {"lgp1", "lgp2"}
  /\ Has(m.files, Field(m, "path"))
  /\ LET f == Get(m.files, Field(m, "path"))
         d == Declared(m)
     IN /\ \A k \in {"longitude", "latitude", "triangle", "codes"} :
             Has(f, Field(m, k))
        /\ \A i \in 1..Len(d), k \in {"amplitude", "phase"} :
             LET n == Fill(Pattern(m, k), d[i])
             IN /\ Has(f, n)
                /\ Len(Get(f, n).data) =
                     MaxCode(Get(f, Field(m, "codes")).data) + 1

\* The environment comes first, then the keywords, then their meaning.
SectionOk(m) ==
  /\ m.name \in {"tide", "radial"}
  /\ m.kind \in {"cartesian", "lgp"}
  /\ m.extra = 0
  /\ \A i \in 1..Len(m.fields) : ValueOk(m.fields[i][2], m.env)
  /\ Keys(m.fields) \subseteq Keywords(m.kind)
  /\ DynamicOk(m)
  /\ \A i \in 1..Len(Declared(m)) : Known(Declared(m)[i])
  /\ Distinct(Declared(m))
  /\ IF m.kind = "cartesian" THEN CartesianOk(m) ELSE LgpOk(m)

(***************************************************************************)
(* What the model built for an accepted section must be                    *)
(***************************************************************************)
Degrees == {"degree", "degrees", "deg"}
Radians(v, i) == IF Fold(v.units) \in Degrees THEN Rad(v.data[i]) ELSE v.data[i]
Tol(dtype) == IF dtype = "f4" THEN RLit("3e-6") ELSE RLit("1e-12")
\* amplitude and phase variables, position in the data, value of the model
Holds(a, g, i, z) ==
  LET p == Radians(g, i)
      t == Tol(IF a.dtype = "f4" THEN "f4" ELSE g.dtype) \otimes RMax(One, RAbs(a.data[i]))
  IN IF RIsNaN(a.data[i]) \/ RIsNaN(g.data[i])
     THEN RIsNaN(z[1]) \/ RIsNaN(z[2])
     ELSE /\ RClose(z[1], a.data[i] \otimes RCos(p), t)
          /\ RClose(z[2], a.data[i] \otimes RSin(p), t)
TypeOf(m) == IF m.name = "tide" THEN 0 ELSE 1
IdsOf(m) == {Parse(Declared(m)[i]) : i \in 1..Len(Declared(m))}

CartesianIs(m, x) ==
  LET f == FileOf(m, 1)
      lon == Get(f, Field(m, "longitude")).data
      lat == Get(f, Field(m, "latitude")).data
      n == Len(lon)
      k == Len(lat)
  IN /\ x.kind = "cartesian"
     /\ Same(x.lon.points, lon) /\ Same(x.lat.points, lat)
     /\ REq(x.lon.epsilon, Field(m, "epsilon")) /\ x.lon.circular
     /\ ~x.lat.circular
     /\ \A c \in 1..Len(Declared(m)) :
          LET g == FileOf(m, c)
              amp == Get(g, Field(m, "amplitude"))
              pha == Get(g, Field(m, "phase"))
              z == Get(x.data, Parse(Declared(m)[c]))
              byLon == amp.dims[1] = Get(g, Field(m, "longitude")).dims[1]
          IN /\ x.dtype = Dtype(amp, pha)
             /\ Len(z) = n * k
             /\ \A i \in 0..(n - 1), j \in 0..(k - 1) :
                  Holds(amp, pha, IF byLon THEN i * k + j + 1 ELSE j * n + i + 1,
                        z[IF x.lonmajor THEN i * k + j + 1 ELSE j * n + i + 1])
LgpIs(m, x) ==
  LET f == Get(m.files, Field(m, "path"))
  IN /\ x.kind = Field(m, "type")
     /\ Same(x.lon, Get(f, Field(m, "longitude")).data)
     /\ Same(x.lat, Get(f, Field(m, "latitude")).data)
     /\ x.triangles = Get(f, Field(m, "triangle")).data
     /\ x.codes = Get(f, Field(m, "codes")).data
     /\ REq(x.distance, Field(m, "max_distance"))
     /\ \A c \in 1..Len(Declared(m)) :
          LET d == Declared(m)[c]
              amp == Get(f, Fill(Pattern(m, "amplitude"), d))
              pha == Get(f, Fill(Pattern(m, "phase"), d))
              z == Get(x.data, Parse(d))
          IN /\ x.dtype = Dtype(amp, pha)
             /\ Len(z) = Len(amp.data)
             /\ \A i \in 1..Len(z) : Holds(amp, pha, i, z[i])
Describes(m, x) ==
  /\ x.name = m.name /\ x.tide = TypeOf(m)
  /\ x.dynamic = Dynamic(m)
  /\ Keys(x.data) = IdsOf(m) /\ Len(x.data) = Cardinality(IdsOf(m))
  /\ IF m.kind = "cartesian" THEN CartesianIs(m, x) ELSE LgpIs(m, x)

\* A whole configuration: its sections, in any order
ConfigOk(ms) == ms # <<>> /\ \A i \in 1..Len(ms) : SectionOk(ms[i])
Built(ms, xs) ==
  /\ Len(xs) = Len(ms)
  /\ \A i \in 1..Len(ms) : \E j \in 1..Len(xs) : Describes(ms[i], xs[j])
=============================================================================
