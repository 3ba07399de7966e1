------------------------------ MODULE GeomTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded sessions on axes (C09), Cartesian models (C10), *)
(* meshes (C11), finite element models (C12), saved and restored objects   *)
(* (C13) and refused inputs (C18).                                         *)
(*                                                                         *)
(* State: the axes, meshes and models, by slot, as the specification knows *)
(* them; what was saved; and what was seen of each (abstract) object.      *)
(***************************************************************************)
EXTENDS Grid, Mesh, Names, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, axs, mss, objs, saved, memo, vers
vars == <<s, l, axs, mss, objs, saved, memo, vers>>

Empty == <<>>
Init == /\ s \in 1..Len(Trace) /\ l = 0
        /\ axs = Empty /\ mss = Empty /\ objs = Empty /\ saved = Empty
        /\ memo = Empty /\ vers = Empty

Set(q) == {q[i] : i \in 1..Len(q)}
Check(c, what) == IF c THEN {} ELSE {what}
With(f, k, v) == (k :> v) @@ f

(***************************************************************************)
(* C09                                                                     *)
(***************************************************************************)
IsAxis(is, ax) ==
  LET near(a, b) == RClose(a, b, Width(ax) \otimes RLit("1e-7"))
      full(a, b) == IF ax.circ THEN RCloseMod(a, b, Turn, Width(ax) \otimes
                                              RLit("1e-6"))
                    ELSE near(a, b)
  IN /\ is.n = ax.n
     /\ near(is.start, ax.start) /\ near(is.step, ax.step)
     /\ near(is.end, Last(ax)) /\ near(is.min, Lo(ax)) /\ near(is.max, Hi(ax))
     /\ is.asc = Ascending(ax)
     /\ is.circ = ax.circ
\* The axis that the points make: where rounding decides, the one observed
Made(e) ==
  LET may == Circles(e.pts, e.circ, e.eps)
  IN AxisOf(e.pts, e.circ, IF e.is.circ \in may THEN e.is.circ ELSE ~e.is.circ)
BadAxis(e) ==
  LET fate == Fate(e.pts, e.circ) IN
  IF e.raised # "" THEN Check("refused" \in fate /\ e.raised = "invalid_argument",
                              "refused")
  ELSE IF "axis" \notin fate THEN {"accepted"}
  ELSE Check(IsAxis(e.is, Made(e)), "axis")
BadFound(ax, x, un, bo, fr) ==
  LET slack == Slack(ax, x)
      cells == Cells(ax, x, slack)
      sure == \* beyond rounding doubts
        ax.circ \/ InBounds(ax, x)
      order == IF fr = <<>> THEN TRUE ELSE Len(fr) = 2
  IN IF ~RIsFinite(x)
     THEN Check(un = -1, "not finite") \cup Check(fr = <<>>, "not finite") \cup
          Check(bo \in -1..(ax.n - 1) /\ (RIsNaN(x) \/ ax.circ => bo = -1),
                "not finite")
     ELSE Check(IF sure THEN IsNearest(ax, un, x)
                ELSE un = -1 \/ IsNearest(ax, un, x), "nearest") \cup
          Check(IF ax.circ \/ InBounds(ax, x) THEN IsNearest(ax, bo, x)
                ELSE bo = IF (x \prec Lo(ax)) = Ascending(ax) THEN 0
                          ELSE ax.n - 1, "bounded") \cup
          Check(order, "frame") \cup
          (IF fr = <<>> THEN Check(~sure, "not framed")
           ELSE Check(\E c \in cells : Framed(c, fr[1], fr[2], ax), "frame"))
BadFind(e) ==
  UNION {BadFound(axs[e.slot], e.x[i], e.un[i], e.bo[i], e.fr[i])
         : i \in 1..Len(e.x)}
BadAt(e) ==
  LET ax == axs[e.slot] IN
  UNION {IF e.i[k] \in 0..(ax.n - 1)
         THEN Check(e.raised[k] = "" /\ RClose(e.v[k], At(ax, e.i[k]),
                                               Width(ax) \otimes RLit("1e-7")),
                    "point")
         ELSE Check(e.raised[k] = "out_of_range", "out of range")
         : k \in 1..Len(e.i)}

(***************************************************************************)
(* C11                                                                     *)
(***************************************************************************)
Triples(q) == [i \in 1..(Len(q) \div 3) |->
                 <<q[3 * i - 2], q[3 * i - 1], q[3 * i]>>]
GoodMesh(lon, lat, tri) ==
  /\ Len(lon) = Len(lat) /\ Len(tri) >= 3
  /\ \A i \in 1..Len(tri) : tri[i] \in 0..(Len(lon) - 1)
MeshFrom(e) == [lon |-> e.lon, lat |-> e.lat, tri |-> Triples(e.tri)]
IsMesh(is, m) ==
  /\ is.np = Len(m.lon) /\ is.nt = Len(m.tri)
  /\ is.tri = m.tri
  /\ Len(is.lon) = is.np /\ Len(is.lat) = is.np
  /\ \A i \in 1..is.np : /\ RCloseMod(is.lon[i], m.lon[i], Turn, RLit("1e-9"))
                         /\ RSame(is.lat[i], m.lat[i])
BadMesh(e) ==
  IF e.raised # ""
  THEN Check(~GoodMesh(e.lon, e.lat, e.tri) /\ e.raised = "invalid_argument",
             "refused")
  ELSE IF ~GoodMesh(e.lon, e.lat, e.tri) THEN {"accepted"}
  ELSE Check(IsMesh(e.is, MeshFrom(e)), "mesh")

Edge == RLit("0.03")      \* geodesics against straight lines
Tiny == RLit("1e-9")
MinDepth == RNeg(Edge)
\* Whether a position lies in the mesh for sure, d its depths: well inside of
\* a triangle, on an edge that two share, on a vertex
Known(m, p, d) ==
  LET at == {v \in 1..Len(m.lon) :
               /\ RCloseMod(m.lon[v], p[1], Turn, Tiny)
               /\ RClose(m.lat[v], p[2], Tiny)}
  IN \/ \E t \in 1..Len(m.tri) : d[t] \succeq Edge
     \/ /\ at = {}
        /\ Cardinality({t \in 1..Len(m.tri) : d[t] \succeq RNeg(Tiny)}) >= 2
     \/ at # {}
BadLocated(m, maxd, p, r) ==
  LET d == Depths(m, p)
      around == {t \in 1..Len(m.tri) : d[t] \succeq MinDepth}
      known == Known(m, p, d)
      t == r.i + 1
      chords == Chords(m, p)
      near == Least(chords)
      nearest == {v \in 1..Len(m.lon) :
                    chords[v] \preceq (near \otimes RLit("1.0000001"))}
      sure == {k \in 1..Len(m.tri) :
                 \E v \in nearest : v - 1 \in Set(m.tri[k])}
      least == Least([k \in 1..Len(m.tri) |->
                        IF k \in sure THEN ToTriangle(m, k, p) ELSE Inf])
      mine == ToTriangle(m, t, p)
      proj == <<r.x, r.y>>
      span == Norm(Local(p, proj))
      doubt == near \otimes RLit("0.03") \oplus One
  IN IF p[2] \succ RInt(90) \/ RIsNaN(p[1]) \/ RIsNaN(p[2]) THEN {}
     ELSE IF r.in
     THEN Check(t \in around, "not in this triangle") \cup
          Check(RSame(r.x, p[1]) /\ RSame(r.y, p[2]), "moved")
     ELSE IF known THEN {"inside, not located"}
     ELSE IF r.i = -1
     THEN Check(~(near \prec (maxd \otimes RLit("0.999999999"))),
                "near, not located")
     ELSE Check(near \prec (maxd \otimes RLit("1.000000001")), "too far") \cup
          (IF t \notin 1..Len(m.tri) THEN {"no such triangle"}
           ELSE Check(mine \preceq (least \oplus doubt), "not the nearest") \cup
                Check(Depth(m, t, proj) \succeq MinDepth, "not projected on it")
                \cup
                Check(span \preceq (mine \oplus doubt), "not projected"))
BadSearch(e) ==
  LET m == mss[e.slot] IN
  UNION {BadLocated(m, e.maxd, <<e.pts[i].x, e.pts[i].y>>, e.r[i])
         : i \in 1..Len(e.pts)}

(***************************************************************************)
(* Models: what they are                                                   *)
(***************************************************************************)
Rows(q, w) == Len(q) % w = 0
MaxCode(q) == IF q = <<>> THEN -1 ELSE
              CHOOSE c \in Set(q) : \A x \in Set(q) : x <= c
GoodSpec(e) ==
  IF e.op = "cart"
  THEN Fate(e.lon, e.circ) = {"axis"} /\ Fate(e.lat, FALSE) = {"axis"}
  ELSE /\ GoodMesh(e.lon, e.lat, e.tri)
       /\ Len(e.codes) = e.n * Len(e.tri)
       /\ \A i \in 1..Len(e.codes) : e.codes[i] >= 0
DoubtfulSpec(e) ==
  e.op = "cart" /\ Cardinality(Fate(e.lon, e.circ) \cup Fate(e.lat, FALSE)) > 1
                /\ Fate(e.lon, e.circ) # {"refused"}
                /\ Fate(e.lat, FALSE) # {"refused"}
ObjOf(e) ==
  LET base == [kind |-> e.op, p |-> e.p, type |-> e.type, data |-> Empty,
               dyn |-> <<>>]
  IN IF e.op = "cart"
     THEN base @@ [lon |-> AxisOf(e.lon, e.circ, TRUE \in Circles(e.lon, e.circ,
                                                          RLit("1e-6"))),
                   lat |-> AxisOf(e.lat, FALSE, FALSE),
                   major |-> e.major, size |-> Len(e.lon) * Len(e.lat)]
     ELSE base @@ [n |-> e.n, maxd |-> e.maxd, mesh |-> MeshFrom(e),
                   codes |-> e.codes, size |-> MaxCode(e.codes) + 1]
\* The state of an object, as its getters tell it
BadIs(is, o) ==
  Check(is.type = o.type, "type") \cup
  Check(Set(is.ids) = DOMAIN o.data /\
        Len(is.ids) = Cardinality(DOMAIN o.data), "constituents") \cup
  Check(is.size = Cardinality(DOMAIN o.data) /\ is.empty = (is.size = 0),
        "size") \cup
  Check(is.dyn = o.dyn, "dynamic") \cup
  (IF "data" \notin DOMAIN is THEN {}       \* the bindings do not show it
   ELSE Check({is.data[i].id : i \in 1..Len(is.data)} = DOMAIN o.data, "data")
        \cup
        UNION {LET d == is.data[i]
                   w == o.data[d.id]
               IN Check(/\ Len(d.v) = Len(w)
                        /\ \A k \in 1..Len(w) : CSame(d.v[k], w[k]), "values")
               : i \in {j \in 1..Len(is.data) :
                          is.data[j].id \in DOMAIN o.data}}) \cup
  (IF o.kind = "cart"
   THEN Check(IsAxis(is.desc.lon, o.lon) /\ IsAxis(is.desc.lat, o.lat), "axes")
   ELSE Check(IsMesh(is.desc, o.mesh), "mesh"))
BadNew(e) ==
  IF e.raised # ""
  THEN Check((~GoodSpec(e) \/ DoubtfulSpec(e)) /\ e.raised = "invalid_argument",
             "refused")
  ELSE IF ~GoodSpec(e) /\ ~DoubtfulSpec(e) THEN {"accepted"}
  ELSE BadIs(e.is, ObjOf(e))
Whose(e) == IF e.op = "add" THEN e.id ELSE Parse(e.name)
Added(o, e) == IF Whose(e) \in DOMAIN o.data THEN o
               ELSE [o EXCEPT !.data = With(@, Whose(e), e.v)]
Accepts(o, e) == Len(e.v) = o.size /\ Whose(e) \in Ids
AfterAdd(e) == LET o == objs[e.slot]
               IN IF Accepts(o, e) THEN Added(o, e) ELSE o
BadAdd(e) ==
  LET o == objs[e.slot]
      p == AfterAdd(e)
  IN Check(IF Accepts(o, e) THEN e.raised = ""
           ELSE e.raised = "invalid_argument", "accepted") \cup BadIs(e.is, p)

(***************************************************************************)
(* C10                                                                     *)
(***************************************************************************)
\* (values are at most 120: what a rounding of the place of the position in
\* its cell, see Slack, makes of them)
VTol == RLit("1e-6")
\* Whether (q, v: id -> value) is what a cell gives
CellGives(o, cx, cy, x, y, ids, v, q) ==
  LET t == Place(o.lon, cx, x, Slack(o.lon, x))
      u == Place(o.lat, cy, y, Slack(o.lat, y))
      b == [id \in ids |-> Bilinear(Corners(o.data[id], cx, cy, o.lon, o.lat,
                                            o.major), t, u)]
      scale == RLit("1e-6") \* values are at most some hundreds
      few == {id \in ids :  \* hardly any weight on the defined nodes
                LET z == Corners(o.data[id], cx, cy, o.lon, o.lat, o.major)
                IN WSum(Weights(t, u), DefinedOf(z)) \preceq RLit("1e-7")}
      sum(id) == WSum(Weights(t, u),
                      DefinedOf(Corners(o.data[id], cx, cy, o.lon, o.lat,
                                        o.major)))
      \* what is allowed on the place weighs more when the defined nodes do
      \* not weigh much
      slack == (Slack(o.lon, x) \oslash Width(o.lon)) \oplus
               (Slack(o.lat, y) \oslash Width(o.lat))
      tol(id) == VTol \oplus ((RInt(120) \otimes slack) \oslash sum(id))
      ok(id) == IF ~b[id][1] THEN CIsNaN(v[id])
                ELSE ~CIsNaN(v[id]) /\ CNear(v[id], b[id][2], tol(id))
      n == IF ids = {} THEN 0
           ELSE CHOOSE k \in 0..4 :
                  /\ \E id \in ids : b[id][3] = k
                  /\ \A id \in ids : b[id][3] >= k
  IN /\ \A id \in ids \ few : ok(id)
     /\ IF few = {} THEN q = QualityOf(n)
        ELSE q = QualityOf(n) \/ (\E id \in few : CIsNaN(v[id])) = (q = 0)
BadCart(o, r) ==
  LET ids == DOMAIN o.data
      v == [id \in Set(r.ids) |->
              r.v[CHOOSE k \in 1..Len(r.ids) : r.ids[k] = id]]
      none == r.q = 0 /\ \A id \in ids : CIsNaN(v[id])
      cx == Cells(o.lon, r.x, Slack(o.lon, r.x))
      cy == Cells(o.lat, r.y, Slack(o.lat, r.y))
      inside == /\ RIsFinite(r.x) /\ RIsFinite(r.y)
                /\ o.lon.circ \/ InBounds(o.lon, r.x)
                /\ InBounds(o.lat, r.y)
  IN IF Set(r.ids) # ids \/ Len(r.ids) # Cardinality(ids) THEN {"constituents"}
     ELSE Check((r.q = 0) = (ids = {} \/ \E id \in ids : CIsNaN(v[id])),
                "undefined") \cup
          (IF ~inside /\ none THEN {}
           ELSE Check(\E c \in cx, d \in cy :
                        CellGives(o, c, d, r.x, r.y, ids, v, r.q),
                      IF cx = {} \/ cy = {} THEN "outside" ELSE "value"))

(***************************************************************************)
(* C12                                                                     *)
(***************************************************************************)
Dofs(o, id, t) == [k \in 1..(3 * o.n) |->
                     o.data[id][o.codes[(t - 1) * 3 * o.n + k] + 1]]
\* Whether v is the value at barycentric coordinates b of triangle t
Gives(o, t, b, id, v) ==
  LET z == Dofs(o, id, t)
      w == Shape(o.n, b)
      ks == {k \in 1..(3 * o.n) : ~Defined(z[k])}
      needed == \E k \in ks : RAbs(w[k]) \succ RLit("1e-6")
  IN IF needed THEN CIsNaN(v)
     ELSE IF ks # {}
     THEN CIsNaN(v) \/
          CNear(v, Polynomial(o.n, b, [k \in 1..(3 * o.n) |->
                                         IF k \in ks THEN CZero ELSE z[k]]),
                RLit("1e-3"))
     ELSE CNear(v, Polynomial(o.n, b, z), RLit("1e-7"))
BadLgp(o, r) ==
  LET ids == DOMAIN o.data
      m == o.mesh
      p == <<r.x, r.y>>
      v == [id \in Set(r.ids) |->
              r.v[CHOOSE k \in 1..Len(r.ids) : r.ids[k] = id]]
      d == Depths(m, p)
      around == {t \in 1..Len(m.tri) : d[t] \succeq MinDepth}
      inside == Known(m, p, d)
      b(t) == Bary(Tri(m, t, p[1]), p)
      by == {t \in around : \A id \in ids : Gives(o, t, b(t), id, v[id])}
      nan == \E id \in ids : CIsNaN(v[id])
      chords == Chords(m, p)
      near == Least(chords)
      none == r.q = 0 /\ \A id \in ids : CIsNaN(v[id])
      projected == /\ r.at # <<>>
                   /\ LET q == <<r.at[2], r.at[3]>>
                          t == r.at[1] + 1
                          c == Bary(Tri(m, t, q[1]), q)
                      IN \A id \in ids : Gives(o, t, c, id, v[id])
      shown == "at" \in DOMAIN r      \* where the position was projected
  IN IF Set(r.ids) # ids \/ Len(r.ids) # Cardinality(ids) THEN {"constituents"}
     ELSE IF ~RIsFinite(p[1]) \/ ~RIsFinite(p[2]) THEN {}
     ELSE Check(r.q \in 0..4 /\ ((r.q = 0) = nan \/ ids = {}), "undefined") \cup
          (IF inside
           THEN Check(by # {}, "value") \cup
                Check(nan \/ r.q = 4, "quality")
           ELSE IF around # {}       \* on the border of the mesh
           THEN Check(none \/ by # {} \/ ~shown \/ projected,
                      "value next to the border")
           ELSE IF ~(near \prec (o.maxd \otimes RLit("1.000000001")))
           THEN Check(none, "too far")
           ELSE IF near \prec (o.maxd \otimes RLit("0.999999999"))
           THEN \* some position of the border, near
                Check(~shown \/ r.at # <<>>, "near, not located") \cup
                Check(~shown \/ r.at = <<>> \/ projected,
                      "value out of the mesh")
           ELSE {})
(***************************************************************************)
(* C24: what the bindings show of a position: arrays, not a number for all  *)
(* the constituents as soon as one of them is undefined; and the waves of   *)
(* a table filled at this position.                                         *)
(***************************************************************************)
\* Whether some constituent may be undefined there
MayBeUndefined(o, r) ==
  LET ids == DOMAIN o.data
      p == <<r.x, r.y>>
  IN \/ ids = {} \/ ~RIsFinite(r.x) \/ ~RIsFinite(r.y)
     \/ IF o.kind = "cart"
        THEN \/ ~(o.lon.circ \/ InBounds(o.lon, r.x)) \/ ~InBounds(o.lat, r.y)
             \/ \E cx \in Cells(o.lon, r.x, Slack(o.lon, r.x)),
                   cy \in Cells(o.lat, r.y, Slack(o.lat, r.y)), id \in ids :
                  LET z == Corners(o.data[id], cx, cy, o.lon, o.lat, o.major)
                      t == Place(o.lon, cx, r.x, Slack(o.lon, r.x))
                      u == Place(o.lat, cy, r.y, Slack(o.lat, r.y))
                  IN WSum(Weights(t, u), DefinedOf(z)) \preceq RLit("1e-7")
        ELSE LET d == Depths(o.mesh, p)
                 around == {t \in 1..Len(o.mesh.tri) : d[t] \succeq MinDepth}
             IN \/ ~Known(o.mesh, p, d)
                \/ \E t \in around, id \in ids :
                     Gives(o, t, Bary(Tri(o.mesh, t, p[1]), p), id,
                           <<NaN, NaN>>)
BadTable(o, r) ==
  LET ids == DOMAIN o.data
      mark(i) == CSame(r.table.tide[i], r.table.mark)
      same(x, y) == IF CIsNaN(y) THEN CIsNaN(x) ELSE CNear(x, y, RLit("1e-9"))
      k(id) == CHOOSE j \in 1..Len(r.ids) : r.ids[j] = id
  IN Check(r.table.q = r.q, "quality of a table") \cup
     Check(\A id \in Ids \ ids : mark(id + 1), "other waves of a table") \cup
     Check(\A id \in ids : r.q # 0 =>
             same(r.table.tide[id + 1], r.v[k(id)]), "waves of a table")
BadShown(o, r) ==
  LET ids == DOMAIN o.data
      \* the values themselves are in the table
      t == [r EXCEPT !.v = [j \in 1..Len(r.ids) |-> r.table.tide[r.ids[j] + 1]]]
  IN IF Set(r.ids) # ids \/ Len(r.ids) # Cardinality(ids) THEN {"constituents"}
     ELSE BadTable(o, r) \cup
          (IF r.q # 0 THEN {}
           ELSE Check(\A j \in 1..Len(r.v) : CIsNaN(r.v[j]), "not undefined")
                \cup Check(MayBeUndefined(o, r), "undefined")) \cup
          (IF o.kind = "cart" THEN BadCart(o, t)
           ELSE BadLgp(o, t))

BadLook(e) ==
  LET o == objs[e.slot] IN
  IF "batch" \in DOMAIN e
  THEN UNION {BadShown(o, e.r[i]) : i \in 1..Len(e.r)} ELSE
  UNION {IF o.kind = "cart" THEN BadCart(o, e.r[i]) ELSE BadLgp(o, e.r[i])
         : i \in 1..Len(e.r)}

(***************************************************************************)
(* C13: objects with the same history behave alike                         *)
(*                                                                         *)
(* vers: what was done to each object, through saved states; key: what an  *)
(* event does, but on which object; sum: what it showed, to the last bit.  *)
(***************************************************************************)
Memo == "memo" \in DOMAIN Trace[s]
KindOf(e) == CASE e.op \in {"axis", "find", "at"} -> "axis"
               [] e.op \in {"mesh", "search"} -> "mesh"
               [] e.op \in {"save", "load"} -> e.kind
               [] OTHER -> "model"
Ver(e) == vers[<<KindOf(e), e.slot>>]
Remembered(e) == Memo /\ e.op \in {"find", "search", "look", "eval"}
Key(e) == <<Ver(e), e.key>>
BadMemo(e) ==
  IF Remembered(e) /\ Key(e) \in DOMAIN memo
  THEN Check(memo[Key(e)] = e.sum, "restored object behaves otherwise")
  ELSE {}
AfterVers(e) ==
  CASE ~Memo -> vers
    [] e.op \in {"axis", "mesh", "cart", "lgp"} /\ e.raised = "" ->
         With(vers, <<KindOf(e), e.slot>>, e.key)
    [] e.op \in {"add", "addname", "dyn", "clear"} ->
         With(vers, <<KindOf(e), e.slot>>, Ver(e) \o "/" \o e.key)
    [] e.op = "save" -> With(vers, <<"saved", e.to>>, Ver(e))
    [] e.op = "load" -> With(vers, <<KindOf(e), e.slot>>,
                             vers[<<"saved", e.from>>])
    [] OTHER -> vers
\* axes restored: the very same
BadKept(e) ==
  Check(Len(e.was) = Len(e.now) /\ Len(e.was) = 4 * Len(e.equal) /\
        \A i \in 1..Len(e.was) : REq(e.was[i], e.now[i]), "not the same") \cup
  Check(\A i \in 1..Len(e.equal) : e.equal[i] = 1, "not equal")
BadLoad(e) ==
  LET w == saved[e.from] IN
  CASE e.kind = "axis" -> Check(IsAxis(e.is, w) /\ e.equal, "axis")
    [] e.kind = "mesh" -> Check(IsMesh(e.is, w), "mesh")
    [] OTHER -> BadIs(e.is, w)

(***************************************************************************)
(* C14: what is restored from a damaged state, if anything                 *)
(***************************************************************************)
\* the library may refuse with any of its errors
Errors(kinds) == Check("unknown" \notin Set(kinds), "not an exception")
SoundAxis(a) ==
  \/ a.n = 0
  \/ /\ a.n >= 2 /\ RIsFinite(a.start) /\ RIsFinite(a.step)
     /\ ~REq(a.step, Zero)
     /\ a.asc = (a.step \succ Zero)
     /\ a.circ => RClose(RAbs(a.step) \otimes RInt(a.n), Turn,
                        RAbs(a.step) \otimes RLit("1.01"))
SoundMesh(d) ==
  /\ Len(d.lon) = d.np /\ Len(d.lat) = d.np /\ Len(d.tri) = d.nt /\ d.nt > 0
  /\ \A t \in 1..d.nt : Len(d.tri[t]) = 3 /\
                         \A k \in 1..3 : d.tri[t][k] \in 0..(d.np - 1)
SoundModel(is) ==
  LET sizes == {is.lens[i].n : i \in 1..Len(is.lens)} IN
  /\ is.type \in {"tide", "radial"}
  /\ Set(is.ids) \subseteq Ids /\ Set(is.dyn) \subseteq Ids
  /\ Len(is.ids) = Cardinality(Set(is.ids)) /\ is.size = Len(is.ids)
  /\ [i \in 1..Len(is.lens) |-> is.lens[i].id] = is.ids
  /\ Cardinality(sizes) <= 1
  /\ is.ids = <<>> \/ is.again = ""
  /\ IF "lon" \in DOMAIN is.desc /\ "np" \notin DOMAIN is.desc
     THEN /\ SoundAxis(is.desc.lon) /\ SoundAxis(is.desc.lat)
          /\ \A z \in sizes :
               /\ is.desc.lon.n \in 0..z /\ is.desc.lat.n \in 0..z
               /\ is.desc.lon.n * is.desc.lat.n = z
     ELSE SoundMesh(is.desc)
Sound(is) == IF "axis" \in DOMAIN is THEN SoundAxis(is.axis)
             ELSE IF "mesh" \in DOMAIN is THEN SoundMesh(is.mesh)
             ELSE SoundModel(is)
BadObjects(e) ==
  Errors(e.kinds) \cup
  UNION {Check(Sound(e.objects[i].is), <<"unsound", e.objects[i].where>>)
         : i \in 1..Len(e.objects)}
\* The mesh of one model with the data of another, that it does not fit
Mixed(is, a, b) ==
  /\ a.kind = "lgp" /\ b.kind = "lgp"
  /\ Len(a.mesh.tri) # Len(b.mesh.tri) /\ a.size # b.size
  /\ is.desc.tri = a.mesh.tri
  /\ \E i \in 1..Len(is.data) : Len(is.data[i].v) = b.size
BadSplice(e) ==
  IF e.raised # "" THEN Errors(<<e.raised>>)
  ELSE Check(Sound(e.is), "unsound") \cup
       Check(e.kind # "model" \/ ~Mixed(e.is, saved[e.from], saved[e.with]),
             "parts of two models")
BadWrong(e) ==
  IF e.raised # "" THEN Errors(<<e.raised>>) ELSE Check(Sound(e.is), "unsound")

Bad(e) ==
  CASE e.op = "axis" -> BadAxis(e)
    [] e.op = "find" -> BadFind(e) \cup BadMemo(e)
    [] e.op = "at" -> BadAt(e)
    [] e.op = "kept" -> BadKept(e)
    [] e.op = "mesh" -> BadMesh(e)
    [] e.op = "search" -> BadSearch(e) \cup BadMemo(e)
    [] e.op \in {"cart", "lgp"} -> BadNew(e)
    [] e.op \in {"add", "addname"} -> BadAdd(e)
    [] e.op = "dyn" -> BadIs(e.is, [objs[e.slot] EXCEPT !.dyn = e.ids])
    [] e.op = "clear" -> BadIs(e.is, [objs[e.slot] EXCEPT !.data = Empty,
                                                          !.dyn = <<>>])
    [] e.op = "look" -> BadLook(e) \cup BadMemo(e)
    [] e.op = "eval" -> BadMemo(e)
    [] e.op \in {"cfg", "save"} -> {}
    [] e.op = "load" -> BadLoad(e)
    [] e.op = "cuts" -> Errors(e.kinds) \cup Check(e.ok = <<>>, "restored a part")
    [] e.op \in {"sweep", "edits"} -> BadObjects(e)
    [] e.op = "splice" -> BadSplice(e)
    [] e.op = "wrong" -> BadWrong(e)
    [] OTHER -> {e.op}

Next ==
  /\ l < Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l + 1]
         bad == Bad(e)
         loaded(kind) == e.op = "load" /\ e.kind = kind
     IN /\ bad # {} => PrintT(<<"REJECT", Trace[s].id, l + 1, bad>>)
        /\ axs' = IF e.op = "axis"
                  THEN IF e.raised = "" /\ Len(e.pts) > 1
                       THEN With(axs, e.slot, Made(e)) ELSE axs
                  ELSE IF loaded("axis") THEN With(axs, e.slot, saved[e.from])
                  ELSE axs
        /\ mss' = IF e.op = "mesh"
                  THEN IF e.raised = "" THEN With(mss, e.slot, MeshFrom(e))
                       ELSE mss
                  ELSE IF loaded("mesh") THEN With(mss, e.slot, saved[e.from])
                  ELSE mss
        /\ objs' = CASE e.op \in {"cart", "lgp"} /\ e.raised = "" ->
                          With(objs, e.slot, ObjOf(e))
                     [] e.op \in {"add", "addname"} ->
                          With(objs, e.slot, AfterAdd(e))
                     [] e.op = "dyn" ->
                          [objs EXCEPT ![e.slot].dyn = e.ids]
                     [] e.op = "clear" ->
                          [objs EXCEPT ![e.slot].data = Empty,
                                       ![e.slot].dyn = <<>>]
                     [] loaded("model") -> With(objs, e.slot, saved[e.from])
                     [] OTHER -> objs
        /\ saved' = IF e.op = "save"
                    THEN With(saved, e.to,
                              CASE e.kind = "axis" -> axs[e.slot]
                                [] e.kind = "mesh" -> mss[e.slot]
                                [] OTHER -> objs[e.slot])
                    ELSE saved
        /\ memo' = IF Remembered(e) THEN With(memo, Key(e), e.sum) ELSE memo
        /\ vers' = AfterVers(e)
  /\ l' = l + 1
  /\ s' = s
=============================================================================
