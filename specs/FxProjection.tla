---------------------------- MODULE FxProjection ----------------------------
(* Map projections: PROJ.4 texts, grid-mapping attributes and back.          *)
(* Numbers are texts of millionths, values of keys and attributes sequences. *)
EXTENDS FxConvert

One6 == 1000000
Zero == <<"0">>
Ellipsoid(e) ==
    CASE e = "wgs84"  -> [M |-> "6378137000000", m |-> "6356752314200", rf |-> ""]
      [] e = "grs80"  -> [M |-> "6378137000000", m |-> "6356752314100", rf |-> ""]
      [] e = "wgs72"  -> [M |-> "6378135000000", m |-> "6356750520000", rf |-> ""]
      [] e = "intl"   -> [M |-> "6378388000000", m |-> "", rf |-> "297000000"]
      [] e = "bessel" -> [M |-> "6377397155000", m |-> "", rf |-> "299152813"]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
FromPairs(P) == TLCEval([k \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = k)[2]])
Sphere(r) == {<<"earth_radius", <<r>>>>}
Figure(M, m, rf) == {<<"semi_major_axis", <<M>>>>} \cup (IF m = "" THEN {} ELSE {<<"semi_minor_axis", <<m>>>>}) \cup (IF rf = "" THEN {} ELSE {<<"inverse_flattening", <<rf>>>>})
DefaultRadius == "6371000000000"
PadTow(t) == LET n == IF Len(t) <= 3 THEN 3 ELSE IF Len(t) <= 6 THEN 6 ELSE 7 IN [i \in 1..n |-> IF i <= Len(t) THEN t[i] ELSE "0"]
EarthParams(E, tow) ==
    (CASE E.k = "none" -> Sphere(DefaultRadius)
       [] E.k = "sphere" -> Sphere(E.M)
       [] E.k = "figure" -> Figure(E.M, E.m, E.rf)
       [] E.k \in {"ellps", "datum"} -> LET e == Ellipsoid(E.e) IN Figure(e.M, e.m, e.rf))
    \cup (IF tow # <<>> THEN {<<"towgs84", PadTow(tow)>>} ELSE IF E.k = "datum" THEN {<<"towgs84", <<"0", "0", "0">>>>} ELSE {})

\* attributes by the keys of a text: c.kv
Always(c, k, n) == {<<n, Get(c.kv, k, Zero)>>}
IfGiven(c, k, n) == IF k \in DOMAIN c.kv THEN {<<n, c.kv[k]>>} ELSE {}
MicroLon180(u) == IF u > 180 * One6 THEN u - 360 * One6 ELSE IF u < -180 * One6 THEN u + 360 * One6 ELSE u
ProjNames == [aea |-> "albers_conical_equal_area", lcc |-> "lambert_conformal_conic", aeqd |-> "azimuthal_equidistant", laea |-> "lambert_azimuthal_equal_area",
              ortho |-> "orthographic", geos |-> "geostationary", nsper |-> "vertical_perspective", cea |-> "lambert_cylindrical_equal_area", merc |-> "mercator",
              omerc |-> "oblique_mercator", sinu |-> "sinusoidal", stere |-> "stereographic", polar |-> "polar_stereographic", tmerc |-> "transverse_mercator",
              utm |-> "transverse_mercator", latlong |-> "latitude_longitude", rot |-> "rotated_latitude_longitude", other |-> "unknown_to_fgdc"]
ProjPart(c) ==
    LET conic == (IF "lat_1" \notin DOMAIN c.kv THEN {} ELSE {<<"standard_parallel", c.kv["lat_1"] \o Get(c.kv, "lat_2", <<>>)>>})
                 \cup Always(c, "lon_0", "longitude_of_central_meridian") \cup Always(c, "lat_0", "latitude_of_projection_origin")
        origin == Always(c, "lon_0", "longitude_of_projection_origin") \cup Always(c, "lat_0", "latitude_of_projection_origin")
        ster == IfGiven(c, "lat_0", "latitude_of_projection_origin") \cup IfGiven(c, "lat_ts", "standard_parallel")
                \cup (IF "lat_ts" \in DOMAIN c.kv THEN {} ELSE IfGiven(c, "k", "scale_factor_at_projection_origin"))
    IN CASE c.kind \in {"aea", "lcc"} -> conic
         [] c.kind \in {"aeqd", "laea", "ortho"} -> origin
         [] c.kind = "geos" -> origin \cup Always(c, "h", "perspective_point_height") \cup {<<"sweep_angle_axis", Get(c.kv, "sweep", <<"y">>)>>}
         [] c.kind = "nsper" -> origin \cup Always(c, "h", "perspective_point_height")
         [] c.kind = "cea" -> Always(c, "lon_0", "longitude_of_central_meridian") \cup IfGiven(c, "lat_ts", "standard_parallel") \cup IfGiven(c, "k", "scale_factor_at_projection_origin")
         [] c.kind = "merc" -> Always(c, "lon_0", "longitude_of_projection_origin") \cup IfGiven(c, "lat_ts", "standard_parallel") \cup IfGiven(c, "k", "scale_factor_at_projection_origin")
         [] c.kind = "omerc" -> Always(c, "lonc", "longitude_of_projection_origin") \cup IfGiven(c, "lat_0", "latitude_of_projection_origin") \cup Always(c, "alpha", "azimuth_of_central_line")
                                \cup IfGiven(c, "gamma", "gamma") \cup IfGiven(c, "k", "scale_factor_at_projection_origin")
                                \cup (IF "no_rot" \in DOMAIN c.kv THEN {<<"no_rotation", <<"">>>>} ELSE {})
         [] c.kind = "sinu" -> Always(c, "lon_0", "longitude_of_projection_origin")
         [] c.kind = "stere" -> Always(c, "lon_0", "longitude_of_projection_origin") \cup ster
         [] c.kind = "polar" -> Always(c, "lon_0", "straight_vertical_longitude_from_pole") \cup ster
         [] c.kind = "tmerc" -> Always(c, "lon_0", "longitude_of_central_meridian") \cup IfGiven(c, "lat_0", "latitude_of_projection_origin") \cup IfGiven(c, "k", "scale_factor_at_central_meridian")
         [] c.kind = "utm" -> {<<"scale_factor_at_central_meridian", <<"999600">>>>, <<"latitude_of_projection_origin", Zero>>, <<"false_easting", <<"500000000000">>>>,
                               <<"longitude_of_central_meridian", <<ToString((6 * (c.zone - 1) - 177) * One6)>>>>}
                              \cup (IF "south" \in DOMAIN c.kv THEN {<<"false_northing", <<"10000000000000">>>>} ELSE {})
         [] c.kind = "rot" -> {<<"grid_north_pole_longitude", <<ToString(MicroLon180(180 * One6 + c.lonu))>>>>, <<"grid_north_pole_latitude", Get(c.kv, "o_lat_p", <<"90000000">>)>>}
                              \cup (IF Get(c.kv, "o_lon_p", Zero) = Zero THEN {} ELSE IfGiven(c, "o_lon_p", "north_pole_grid_longitude"))
         [] c.kind = "latlong" -> {}
         [] c.kind = "other" -> {<<"proj4", <<c.text>>>>}
ProjParams(c) ==
    FromPairs({<<"grid_mapping_name", <<ProjNames[c.kind]>>>>} \cup ProjPart(c) \cup IfGiven(c, "x_0", "false_easting") \cup IfGiven(c, "y_0", "false_northing") \cup EarthParams(c.E, c.tow))

\* words of the text for attributes P; the scale may be named k or k_0 (observed as k)
Word(P, n, k) == IF n \in DOMAIN P /\ Len(P[n]) > 0 THEN {<<k, P[n]>>} ELSE {}
ConicWords(P) == IF "standard_parallel" \in DOMAIN P THEN {<<"+lat_1", <<P["standard_parallel"][1]>>>>, <<"+lat_2", <<P["standard_parallel"][IF Len(P["standard_parallel"]) >= 2 THEN 2 ELSE 1]>>>>}
                 ELSE {<<"+lat_1", Zero>>, <<"+lat_2", Zero>>}
OriginWords(P) == Word(P, "longitude_of_projection_origin", "+lon_0") \cup Word(P, "latitude_of_projection_origin", "+lat_0")
MeridianWords(P) == Word(P, "longitude_of_central_meridian", "+lon_0") \cup Word(P, "latitude_of_projection_origin", "+lat_0")
Scale(P) == Word(P, "scale_factor_at_projection_origin", "+k")
ProjWords(name, P, poleu) ==
    LET Pr(t) == {<<"+proj", <<t>>>>} IN
    CASE name = "albers_conical_equal_area" -> Pr("aea") \cup ConicWords(P) \cup MeridianWords(P)
      [] name = "lambert_conformal_conic" -> Pr("lcc") \cup ConicWords(P) \cup MeridianWords(P)
      [] name = "azimuthal_equidistant" -> Pr("aeqd") \cup OriginWords(P)
      [] name = "lambert_azimuthal_equal_area" -> Pr("laea") \cup OriginWords(P)
      [] name = "orthographic" -> Pr("ortho") \cup OriginWords(P)
      [] name = "geostationary" -> Pr("geos") \cup OriginWords(P) \cup Word(P, "perspective_point_height", "+h") \cup Word(P, "sweep_angle_axis", "+sweep")
      [] name = "vertical_perspective" -> Pr("nsper") \cup OriginWords(P) \cup Word(P, "perspective_point_height", "+h")
      [] name = "lambert_cylindrical_equal_area" -> Pr("cea") \cup Word(P, "longitude_of_central_meridian", "+lon_0") \cup Word(P, "standard_parallel", "+lat_ts") \cup Scale(P)
      [] name = "mercator" -> Pr("merc") \cup Word(P, "longitude_of_projection_origin", "+lon_0") \cup Word(P, "standard_parallel", "+lat_ts") \cup Scale(P)
      [] name = "oblique_mercator" -> Pr("omerc") \cup Word(P, "longitude_of_projection_origin", "+lonc") \cup Word(P, "latitude_of_projection_origin", "+lat_0")
                                      \cup Word(P, "azimuth_of_central_line", "+alpha") \cup Word(P, "gamma", "+gamma") \cup Scale(P)
                                      \cup (IF "no_rotation" \in DOMAIN P THEN {<<"+no_rot", <<>>>>} ELSE {})
      [] name = "sinusoidal" -> Pr("sinu") \cup Word(P, "longitude_of_projection_origin", "+lon_0")
      [] name \in {"stereographic", "polar_stereographic"} -> Pr("stere") \cup Word(P, "latitude_of_projection_origin", "+lat_0") \cup Word(P, "longitude_of_projection_origin", "+lon_0")
                                      \cup Word(P, "straight_vertical_longitude_from_pole", "+lon_0") \cup Scale(P) \cup Word(P, "standard_parallel", "+lat_ts")
      [] name = "transverse_mercator" -> Pr("tmerc") \cup MeridianWords(P) \cup Word(P, "scale_factor_at_central_meridian", "+k")
      [] name = "latitude_longitude" -> Pr("latlong")
      [] name = "rotated_latitude_longitude" -> Pr("ob_tran") \cup {<<"+o_proj", <<"latlong">>>>} \cup (IF "grid_north_pole_longitude" \in DOMAIN P THEN {<<"+lon_0", <<ToString(poleu - 180 * One6)>>>>} ELSE {})
                                      \cup Word(P, "grid_north_pole_latitude", "+o_lat_p") \cup Word(P, "north_pole_grid_longitude", "+o_lon_p")
EarthWords(P) ==
    (IF "earth_radius" \in DOMAIN P THEN {<<"+a", P["earth_radius"]>>, <<"+e", Zero>>}
     ELSE IF "semi_major_axis" \in DOMAIN P
          THEN {<<"+a", P["semi_major_axis"]>>} \cup Word(P, "semi_minor_axis", "+b") \cup Word(P, "inverse_flattening", "+rf")
               \cup (IF "semi_minor_axis" \in DOMAIN P \/ "inverse_flattening" \in DOMAIN P THEN {} ELSE {<<"+e", Zero>>})
          ELSE {<<"+a", <<DefaultRadius>>>>, <<"+e", Zero>>})
    \cup Word(P, "towgs84", "+towgs84")
AllWords(name, P, poleu) == FromPairs(ProjWords(name, P, poleu) \cup Word(P, "false_easting", "+x_0") \cup Word(P, "false_northing", "+y_0") \cup EarthWords(P) \cup {<<"+no_defs", <<>>>>})
\* what is made of the own text: a single standard parallel is written twice
AgainParams(name, P) ==
    IF name \in {"albers_conical_equal_area", "lambert_conformal_conic"} /\ "standard_parallel" \in DOMAIN P /\ Len(P["standard_parallel"]) = 1
    THEN [P EXCEPT !["standard_parallel"] = <<P["standard_parallel"][1], P["standard_parallel"][1]>>] ELSE P
AngularProj == {"latitude_longitude", "rotated_latitude_longitude"}
Proj4Obs(c) ==
    IF c.kind = "bad" THEN Err
    ELSE LET P == TLCEval(ProjParams(c))  name == ProjNames[c.kind]
         IN [st |-> "ok", name |-> name, deg |-> IF name \in AngularProj THEN 1 ELSE 0, p |-> P,
             w |-> IF c.kind = "other" THEN c.words ELSE AllWords(name, P, IF c.kind = "rot" THEN MicroLon180(180 * One6 + c.lonu) ELSE 0),
             again |-> AgainParams(name, P), same |-> 1]
            @@ (IF c.pts = <<>> THEN EmptyFn ELSE [back |-> 1, agrees |-> 1])

\* projection from attributes, one after the other
RECURSIVE FoldAtts(_, _)
FoldAtts(P, as) ==
    IF as = <<>> THEN P
    ELSE LET a == Head(as)
             semi == {"semi_major_axis", "semi_minor_axis", "inverse_flattening"}
             drop == IF a.n = "earth_radius" THEN semi ELSE IF a.n \in semi THEN {"earth_radius"} ELSE {}
         IN FoldAtts(TLCEval(Put([k \in DOMAIN P \ drop |-> P[k]], a.n, a.v)), Tail(as))
ProjAttsObs(c) ==
    LET P == TLCEval(FoldAtts([earth_radius |-> <<DefaultRadius>>], c.atts))
        name == IF "grid_mapping_name" \in DOMAIN P THEN P["grid_mapping_name"][1] ELSE "latitude_longitude"
    IN IF name \notin {ProjNames[k] : k \in DOMAIN ProjNames} \ {"unknown_to_fgdc"} THEN Err
       ELSE [st |-> "ok", name |-> name, deg |-> IF name \in AngularProj THEN 1 ELSE 0, p |-> P, w |-> AllWords(name, P, c.poleu), same |-> 1]
            @@ (IF c.pts = <<>> THEN EmptyFn ELSE [back |-> 1])

\* the words of the old text that do not describe the earth, then the new ones
EarthfigureObs(c) == [st |-> "ok", w |-> IF c.neww = <<>> THEN c.oldw ELSE SelectSeq(c.oldw, LAMBDA x : x \notin Range(c.earthw)) \o c.neww]
=============================================================================
