------------------------------ MODULE FxForward -----------------------------
(* Forward interpolation: every point of the source belongs to the cell of  *)
(* the target grid around it; a cell has the sum, mean, median, minimum or  *)
(* maximum of its points.                                                   *)
EXTENDS FxHorizontal

ForwardMethods ==
    {"forward_sum", "forward_mean", "forward_median", "forward_min", "forward_max",
     "forward_undef_sum", "forward_undef_mean", "forward_undef_median", "forward_undef_min", "forward_undef_max"}
Propagates(m) == m \in {"forward_undef_sum", "forward_undef_mean", "forward_undef_median", "forward_undef_min", "forward_undef_max"}
\* of the defined values V (a sequence), as <<number, denominator>>
Aggregated(m, V) ==
    CASE m \in {"forward_sum", "forward_undef_sum"} -> <<SumSeq(V), 1>>
      [] m \in {"forward_mean", "forward_undef_mean"} -> <<SumSeq(V), Len(V)>>
      [] m \in {"forward_median", "forward_undef_median"} -> <<SortSeq(V, LAMBDA a, b : a < b)[Len(V) \div 2 + 1], 1>>
      [] m \in {"forward_min", "forward_undef_min"} -> <<SetMin(Range(V)), 1>>
      [] m \in {"forward_max", "forward_undef_max"} -> <<SetMax(Range(V)), 1>>
CellValue(m, W) ==
    LET V == SelectSeq(W, LAMBDA x : x # NAN) IN
    IF V = <<>> \/ (Propagates(m) /\ Len(V) < Len(W)) THEN <<NAN, 1>> ELSE Aggregated(m, V)
\* g = [x, y: dimensions, lon, lat: variables with the coordinates of the points, on one or both of the dimensions]
PointLon(ds, g, k) == LET d == ds.vars[g.lon].d IN IF Len(ds.vars[g.lon].sh) = 2 THEN d[k] ELSE d[((k - 1) % ds.dims[g.x].len) + 1]
PointLat(ds, g, k) == LET d == ds.vars[g.lat].d IN IF Len(ds.vars[g.lat].sh) = 2 THEN d[k] ELSE d[(k - 1) \div ds.dims[g.x].len + 1]
Forward(ds, c) ==
    LET g == c.g
        nx == ds.dims[g.x].len  ny == ds.dims[g.y].len
        mx == Len(c.xs)  my == Len(c.ys)
        cell == TLCEval([k \in 1..(nx * ny) |->
            LET i == RoundDiv(Position(c.xs, "lon", PointLon(ds, g, k), 1, c.r), c.r)
                j == RoundDiv(Position(c.ys, "lin", PointLat(ds, g, k), 1, c.r), c.r)
            IN IF Inside(i, mx) /\ Inside(j, my) THEN j * mx + i + 1 ELSE 0])
        of == TLCEval([o \in 1..(mx * my) |-> SelectSeq([k \in 1..(nx * ny) |-> k], LAMBDA k : cell[k] = o)])
        regrid(v) == LET d == ds.vars[v].d  nz == Len(d) \div (nx * ny) IN
            TLCEval([q \in 1..(nz * mx * my) |->
                LET z == (q - 1) \div (mx * my)  ks == of[((q - 1) % (mx * my)) + 1]
                    e == CellValue(c.m, TLCEval([p \in 1..Len(ks) |-> LET x == d[z * nx * ny + ks[p]] IN IF IsMissing(ds, v, x) THEN NAN ELSE x]))
                IN AsStored(ds, v, e[1], e[2])])
        kept == {v \in DOMAIN ds.vars : OnGrid(ds, v, g) \/ ~Touches(ds, v, g)} \ {g.x, g.y, g.lon, g.lat}
        new == [v \in kept |->
                  IF ~OnGrid(ds, v, g) THEN ds.vars[v]
                  ELSE [ds.vars[v] EXCEPT !.a = Without(@, {"coordinates", "grid_mapping"}), !.d = regrid(v)]]
        a0(a) == IF a \in DOMAIN ds.vars /\ a \notin {g.lon, g.lat} THEN Without(ds.vars[a].a, {"long_name"}) ELSE EmptyFn
        axis(a, t, sn, u, vals) == [t |-> t, sh |-> <<a>>, a |-> Put(Put(a0(a), "standard_name", Str(sn)), "units", Str(u)), d |-> vals]
        ax == (g.x :> axis(g.x, c.xt, "longitude", IF c.xu = "degree" THEN "degrees_east" ELSE c.xu, c.xs))
              @@ (g.y :> axis(g.y, c.yt, "latitude", IF c.yu = "degree" THEN "degrees_north" ELSE c.yu, c.ys))
    IN [ds EXCEPT !.dims = TLCEval([d \in DOMAIN @ |-> IF d = g.x THEN [@[d] EXCEPT !.len = mx] ELSE IF d = g.y THEN [@[d] EXCEPT !.len = my] ELSE @[d]]),
                  !.vars = TLCEval(ax @@ new), !.ga = WithConventions(@)]
=============================================================================
