----------------------------- MODULE FxCoordSys -----------------------------
(* Coordinate systems of a dataset by the CF conventions.                   *)
(* Commands bring along what cannot be had from strings in TLA+: the order  *)
(* of names (order: alphabetical, vorder: as defined), the words of each    *)
(* "coordinates" attribute and the terms of each "formula_terms" attribute. *)
EXTENDS FxConvert

TextAtt(ds, v, a) == IF v \in DOMAIN ds.vars /\ HasAttr(ds, v, a) THEN Attr(ds, v, a).s ELSE ""
HasText(ds, v, a) == v \in DOMAIN ds.vars /\ HasAttr(ds, v, a)
CoordNames(ds, c, v) == IF HasText(ds, v, "coordinates") THEN Range(c.words[TextAtt(ds, v, "coordinates")]) ELSE {}
ShapeSet(ds, v) == Range(ds.vars[v].sh)
AxesOf(ds, c, v) == ShapeSet(ds, v) \cup CoordNames(ds, c, v)
AxisNames(ds, c) == DOMAIN ds.dims \cup UNION {CoordNames(ds, c, v) : v \in DOMAIN ds.vars}

LonUnits == {"degrees_east", "degrees_E", "degreesE", "degree_east", "degree_E", "degreeE", "Degrees_East"}
LatUnits == {"degrees_north", "degrees_N", "degreesN", "degree_north", "degree_N", "degreeN", "Degrees_North"}
LengthUnits == {"m", "km", "cm"}
PressureUnits == {"hPa", "Pa", "mbar", "dbar"}
TimeUnitTexts == {"hours since 2000-01-01 00:00:00", "days since 1990-05-05", "seconds since 1970-01-01 00:00:00 +00:00"}
LevelUnits == {"level", "layer", "sigma_level", "Level"}
ParametricZ == {"atmosphere_sigma_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_height_coordinate", "atmosphere_sleve_coordinate",
                "ocean_sigma_coordinate", "ocean_s_coordinate", "ocean_sigma_z_coordinate", "ocean_double_sigma_coordinate",
                "ocean_s_coordinate_g1", "ocean_s_coordinate_g2", "atmosphere_ln_pressure_coordinate"}
AxisType(ds, n) ==
    LET s == TextAtt(ds, n, "standard_name")  u == TextAtt(ds, n, "units")  p == TextAtt(ds, n, "positive")  a == TextAtt(ds, n, "axis")
    IN CASE s \in {"longitude", "Longitude"} -> "Lon"
         [] s = "latitude" -> "Lat"
         [] s = "forecast_reference_time" -> "ReferenceTime"
         [] s = "realization" -> "Realization"
         [] s \in {"projection_x_coordinate", "grid_longitude"} -> "GeoX"
         [] s \in {"projection_y_coordinate", "grid_latitude"} -> "GeoY"
         [] s \in ParametricZ -> "GeoZ"
         [] u \in LonUnits -> "Lon"
         [] u \in LatUnits -> "Lat"
         [] u \in TimeUnitTexts -> "Time"
         [] u \in PressureUnits -> "Pressure"
         [] u \in LevelUnits -> "GeoZ"
         [] p \in {"up", "Up", "UP"} /\ u \in LengthUnits -> "Height"
         [] p \in {"down", "Down"} /\ u \in LengthUnits -> "Depth"
         [] p # "" -> "GeoZ"
         [] a \in {"X", "x"} -> "GeoX"
         [] a \in {"Y", "y"} -> "GeoY"
         [] a \in {"Z", "z"} -> IF u \in LengthUnits THEN "Height" ELSE "GeoZ"
         [] a \in {"T", "t"} -> "Time"
         [] OTHER -> "Undefined"

\* a system: true axes and auxiliary axes, each in alphabetical order
SystemOf(ds, c, v) ==
    LET coords == CoordNames(ds, c, v)  all == AxesOf(ds, c, v)
    IN [main |-> SelectSeq(c.order, LAMBDA n : n \in all \ coords), aux |-> SelectSeq(c.order, LAMBDA n : n \in all \cap coords)]
SystemAxes(y) == y.main \o y.aux
SysVars(ds, c) == SelectSeq(c.vorder, LAMBDA v : v \in DOMAIN ds.vars /\ v \notin AxisNames(ds, c) /\ AxesOf(ds, c, v) # {})
\* two dimensions of a variable cannot both be, say, longitudes
Ambiguous(ds, y) == \E i, j \in 1..Len(y.main) : i < j /\ AxisType(ds, y.main[i]) = AxisType(ds, y.main[j]) /\ AxisType(ds, y.main[i]) # "Undefined"
RECURSIVE Systems(_, _, _, _)
Systems(ds, c, vs, acc) ==
    IF vs = <<>> THEN acc
    ELSE LET y == SystemOf(ds, c, Head(vs))
         IN Systems(ds, c, Tail(vs), IF \E k \in 1..Len(acc) : Range(SystemAxes(acc[k])) = Range(SystemAxes(y)) THEN acc ELSE Append(acc, y))
AllSystems(ds, c) == Systems(ds, c, SysVars(ds, c), <<>>)
Belongs(ds, c, y, v) == AxesOf(ds, c, v) = Range(SystemAxes(y))

FirstOfType(ds, y, ty) == LET q == SelectSeq(SystemAxes(y), LAMBDA n : AxisType(ds, n) = ty) IN IF q = <<>> THEN "" ELSE q[1]
RECURSIVE FirstOfTypes(_, _, _)
FirstOfTypes(ds, y, tys) == IF tys = <<>> THEN "" ELSE LET n == FirstOfType(ds, y, Head(tys)) IN IF n # "" THEN n ELSE FirstOfTypes(ds, y, Tail(tys))
XAxis(ds, y) == FirstOfTypes(ds, y, <<"GeoX", "Lon">>)
YAxis(ds, y) == FirstOfTypes(ds, y, <<"GeoY", "Lat">>)
ZAxis(ds, y) == FirstOfTypes(ds, y, <<"GeoZ", "Height", "Depth", "Pressure">>)
TAxis(ds, y) == FirstOfTypes(ds, y, <<"Time">>)
SimpleAxis(ds, n) == n # "" /\ n \in DOMAIN ds.dims /\ n \in DOMAIN ds.vars /\ Len(ds.vars[n].sh) = 1
SimpleGrid(ds, y) == SimpleAxis(ds, XAxis(ds, y)) /\ SimpleAxis(ds, YAxis(ds, y))
GridMappingName(ds, v) == IF HasText(ds, v, "grid_mapping_name") THEN TextAtt(ds, v, "grid_mapping_name") ELSE "latitude_longitude"
\* <<name of the projection, variable with its parameters>>
RECURSIVE ProjectionAmong(_, _, _)
ProjectionAmong(ds, y, vs) ==
    IF vs = <<>> THEN <<"", "">>
    ELSE LET v == Head(vs) IN
         IF HasText(ds, v, "grid_mapping")
         THEN LET m == TextAtt(ds, v, "grid_mapping") IN
              IF m \in DOMAIN ds.vars THEN <<GridMappingName(ds, m), m>> ELSE ProjectionAmong(ds, y, Tail(vs))
         ELSE IF SimpleGrid(ds, y) /\ AxisType(ds, XAxis(ds, y)) = "Lon" /\ AxisType(ds, YAxis(ds, y)) = "Lat" THEN <<"latitude_longitude", "">>
         ELSE ProjectionAmong(ds, y, Tail(vs))
ProjectionOf(ds, c, y) == ProjectionAmong(ds, y, SelectSeq(c.vorder, LAMBDA v : v \in DOMAIN ds.vars /\ Belongs(ds, c, y, v)))

AltitudeNames == {"altitude", "altitude1", "my_altitude", "height_above_msl", "height_above_mean_sea_level", "height_above_geopotential_datum", "height_above_reference_ellipsoid"}
IsAltitude(ds, z) == z \in AltitudeNames \/ (IF HasText(ds, z, "computed_standard_name") THEN TextAtt(ds, z, "computed_standard_name") ELSE TextAtt(ds, z, "standard_name")) \in AltitudeNames
Terms(ds, c, z) == IF HasText(ds, z, "formula_terms")
                   THEN LET t == c.terms[TextAtt(ds, z, "formula_terms")] IN [k \in {k \in DOMAIN t : t[k] \in DOMAIN ds.vars} |-> t[k]]
                   ELSE EmptyFn
TermOf(ts, k) == Get(ts, k, "")
\* the system must have all axes of a term, but for those of length 1
CoversTerm(ds, c, y, v) == v = "" \/ \A n \in AxesOf(ds, c, v) : n \in DOMAIN ds.dims /\ ds.dims[n].len # 1 => n \in Range(SystemAxes(y))
Covers(ds, c, y, ts, ks) == \A k \in ks : CoversTerm(ds, c, y, TermOf(ts, k))
Formula(ds, c, y, z) ==
    LET ts == Terms(ds, c, z)  s == TextAtt(ds, z, "standard_name")
        T(k) == TermOf(ts, k)
    IN CASE s = "atmosphere_hybrid_sigma_pressure_coordinate" ->
              IF ~Covers(ds, c, y, ts, {"p", "ps", "p0"} \cup {IF T("ap") = "" THEN "a" ELSE "ap"}) THEN ""
              ELSE IF T("ap") = "" THEN s \o "_2(a=" \o T("a") \o ",b=" \o T("b") \o ",ps=" \o T("ps") \o ",p0=" \o T("p0") \o ")"
              ELSE s \o "_1(ap=" \o T("ap") \o ",b=" \o T("b") \o ",ps=" \o T("ps") \o ",p0=" \o T("p0") \o ")"
         [] s = "atmosphere_ln_pressure_coordinate" ->
              IF ~Covers(ds, c, y, ts, {"lev", "p0"}) THEN "" ELSE s \o "(lev=" \o T("lev") \o ",p0=" \o T("p0") \o ")"
         [] s = "atmosphere_sigma_coordinate" ->
              IF ~Covers(ds, c, y, ts, {"sigma", "ptop", "ps"}) THEN "" ELSE s \o "(sigma=" \o T("sigma") \o ",ps=" \o T("ps") \o ",ptop=" \o T("ptop") \o ")"
         [] s \in {"ocean_s_coordinate_g1", "ocean_s_coordinate_g2"} ->
              IF ~Covers(ds, c, y, ts, {"s", "C", "depth", "depth_c", "eta"}) THEN ""
              ELSE s \o "(s=" \o T("s") \o ",C=" \o T("C") \o ",depth=" \o T("depth") \o ",depth_c=" \o T("depth_c") \o ",eta=" \o T("eta") \o ")"
         [] s = "atmosphere_hybrid_height_coordinate" ->
              IF ~Covers(ds, c, y, ts, {"a", "b", "orog"}) THEN "" ELSE s \o "(a=" \o T("a") \o ",b=" \o T("b") \o ",orog=" \o T("orog") \o ")"
         [] OTHER -> ""
VerticalOf(ds, c, y) ==
    LET z == ZAxis(ds, y)  ty == AxisType(ds, z) IN
    IF z \notin DOMAIN ds.vars THEN ""
    ELSE CASE ty = "Height" -> (IF IsAltitude(ds, z) THEN "altitude(a=" ELSE "height(h=") \o z \o ")"
           [] ty = "Depth" -> "depth(d=" \o z \o ")"
           [] ty = "Pressure" -> "pressure(p=" \o z \o ")"
           [] OTHER -> Formula(ds, c, y, z)
NeedsOf(ds, c, y) ==
    LET z == ZAxis(ds, y)
    IN Range(SystemAxes(y)) \cup ({ProjectionOf(ds, c, y)[2]} \ {""})
       \cup (IF z \in DOMAIN ds.vars /\ AxisType(ds, z) = "GeoZ" THEN Range(Terms(ds, c, z)) ELSE {})
       \cup {b \in {TextAtt(ds, n, "bounds") : n \in Range(SystemAxes(y))} : b \in DOMAIN ds.vars}
Ordered(c, X) == SelectSeq(c.order, LAMBDA n : n \in X)
SystemObs(ds, c, y) ==
    [ax |-> TLCEval([n \in Range(SystemAxes(y)) |-> AxisType(ds, n)]), simple |-> SimpleGrid(ds, y), p |-> ProjectionOf(ds, c, y)[1], v |-> VerticalOf(ds, c, y),
     for |-> Ordered(c, {v \in DOMAIN ds.vars : Belongs(ds, c, y, v)}), needs |-> Ordered(c, NeedsOf(ds, c, y)),
     xyzt |-> <<XAxis(ds, y), YAxis(ds, y), ZAxis(ds, y), TAxis(ds, y)>>]
RECURSIVE JoinNames(_)
JoinNames(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o JoinNames(Tail(q))
IdOf(c, y) == JoinNames(Ordered(c, Range(SystemAxes(y))))
FindSystem(ds, c, Y, v) == {k \in 1..Len(Y) : Belongs(ds, c, Y[k], v)}
VarAxesObs(ds, c, Y, v) ==
    LET K == FindSystem(ds, c, Y, v)
        y == IF K = {} THEN [main |-> <<>>, aux |-> <<>>] ELSE Y[CHOOSE k \in K : TRUE]
        la == FirstOfType(ds, y, "Lat")  lo == FirstOfType(ds, y, "Lon")
    IN <<XAxis(ds, y), YAxis(ds, y),
         IF \E k \in 1..Len(Y) : ZAxis(ds, Y[k]) = v THEN v ELSE ZAxis(ds, y),
         IF \E k \in 1..Len(Y) : TAxis(ds, Y[k]) = v THEN v ELSE TAxis(ds, y),
         IF la # "" /\ lo # "" THEN la ELSE "", IF la # "" /\ lo # "" THEN lo ELSE "",
         IF K = {} THEN "" ELSE ProjectionOf(ds, c, y)[1]>>
CoordSysObs(ds, c) ==
    LET Y == TLCEval(AllSystems(ds, c)) IN
    IF \E v \in Range(SysVars(ds, c)) : Ambiguous(ds, SystemOf(ds, c, v)) THEN Err
    ELSE [st |-> "ok", n |-> Len(Y), cs |-> TLCEval([i \in {IdOf(c, Y[k]) : k \in 1..Len(Y)} |-> SystemObs(ds, c, Y[CHOOSE k \in 1..Len(Y) : IdOf(c, Y[k]) = i])]),
          vars |-> TLCEval([v \in DOMAIN ds.vars |-> VarAxesObs(ds, c, Y, v)])]

\* the horizontal systems of a dataset and the variables on each of them
HorizontalId(ds, y) == LET x == XAxis(ds, y)  z == YAxis(ds, y) IN IF x # "" /\ z # "" THEN x \o "," \o z ELSE x \o z
GoodHorizontal(ds, c, y, proj) == IF proj THEN SimpleGrid(ds, y) /\ ProjectionOf(ds, c, y)[1] # "" ELSE FirstOfType(ds, y, "Lat") # "" /\ FirstOfType(ds, y, "Lon") # ""
BestObs(ds, c) ==
    LET Y == TLCEval(AllSystems(ds, c))
        H == {HorizontalId(ds, Y[k]) : k \in {k \in 1..Len(Y) : GoodHorizontal(ds, c, Y[k], c.proj = 1)}}
        On == {v \in DOMAIN ds.vars : \E k \in FindSystem(ds, c, Y, v) : HorizontalId(ds, Y[k]) \in H}
    IN IF \E v \in Range(SysVars(ds, c)) : Ambiguous(ds, SystemOf(ds, c, v)) THEN Err
       ELSE [st |-> "ok", n |-> Cardinality(H), ids |-> TLCEval([h \in H |-> 1]),
             vars |-> TLCEval([v \in On |-> HorizontalId(ds, Y[CHOOSE k \in FindSystem(ds, c, Y, v) : TRUE])])]

\* pairs of vector components: c.std gives kind of pair, component and rest of the standard name of a variable
RECURSIVE PairUp(_, _, _, _)
PairUp(ds, c, xs, acc) ==
    IF xs = <<>> THEN acc
    ELSE LET x  == Head(xs)
             ys == SelectSeq(c.vorder, LAMBDA v : v \in DOMAIN c.std /\ c.std[v].k = c.std[x].k /\ c.std[v].c = "y" /\ c.std[v].r = c.std[x].r
                                                   /\ ds.vars[v].sh = ds.vars[x].sh /\ v \notin DOMAIN acc)
         IN PairUp(ds, c, Tail(xs), IF ys = <<>> THEN acc ELSE Put(Put(acc, x, ys[1]), ys[1], x))
VectorDir(k, comp) == IF k \in {"wind", "sea", "ice"} THEN comp ELSE IF comp = "x" THEN "longitude" ELSE "latitude"
VectorObs(ds, c) ==
    LET p == PairUp(ds, c, SelectSeq(c.vorder, LAMBDA v : v \in DOMAIN c.std /\ c.std[v].c = "x"), EmptyFn)
    IN [st |-> "ok", v |-> TLCEval([x \in DOMAIN p |-> <<p[x], VectorDir(c.std[x].k, c.std[x].c)>>])]
=============================================================================
