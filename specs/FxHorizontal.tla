----------------------------- MODULE FxHorizontal ---------------------------
(* Interpolation between horizontal grids: position of a coordinate on an   *)
(* axis, and the value of a field at a fractional position.                 *)
(* Fractional numbers are counted in q-ths.                                 *)
EXTENDS FxConvert

\* ------------------------------------------------------------- positions
\* axis: strictly monotonous integers; p: point in q-ths; the position in r-ths (r a multiple of the denominators)
Ascending(axis) == axis[1] < axis[Len(axis)]
\* number of the axis value at or beyond p, seen in the axis' direction (Len+1 if none)
AtOrBeyond(axis, p, q) ==
    LET B == {i \in 1..Len(axis) : IF Ascending(axis) THEN axis[i] * q >= p ELSE axis[i] * q <= p}
    IN IF B = {} THEN Len(axis) + 1 ELSE SetMin(B)
\* linear between the neighbours, the outermost intervals continue beyond the ends
LinearPosition(axis, p, q, r) ==
    LET b == Max2(2, Min2(Len(axis), AtOrBeyond(axis, p, q)))
        num == (p - axis[b-1] * q) * r          \* in r-ths of the interval times q * slope
        den == (axis[b] - axis[b-1]) * q
        x == IF den < 0 THEN -num ELSE num
        y == Abs(den)
    IN IF x % y = 0 THEN (b - 2) * r + x \div y ELSE FRAC
\* longitudes: in the range of the axis; an axis around the globe continues at its other end
LonPoint(axis, p, q) ==
    IF axis[1] < 0 \/ axis[Len(axis)] < 0 THEN (IF p > 180 * q THEN p - 360 * q ELSE p)
    ELSE (IF p < 0 THEN p + 360 * q ELSE p)
Circular(axis) ==
    LET n == Len(axis)  next == 100 * axis[n] + 101 * (axis[2] - axis[1])
    IN IF Ascending(axis) THEN next - 36000 >= 100 * axis[1] ELSE next + 36000 <= 100 * axis[1]
Position(axis, type, p, q, r) ==
    IF type # "lon" THEN LinearPosition(axis, p, q, r)
    ELSE LET x == LinearPosition(axis, LonPoint(axis, p, q), q, r)
             n == Len(axis)
         IN IF ~Circular(axis) \/ x = FRAC THEN x
            ELSE IF 2 * x <= -r THEN x + n * r
            ELSE IF 2 * x > (2 * n - 1) * r THEN x - n * r
            ELSE x
PositionsObs(c) == [st |-> "ok", d |-> TLCEval([i \in 1..Len(c.pts) |-> IF c.pts[i] = NAN THEN -999 * c.r ELSE Position(c.axis, c.type, c.pts[i], c.q, c.r)])]

\* ---------------------------------------------------------------- values
\* a field is the sequence of its rows, NAN where undefined; column i and row j count from 0
At(L, nx, i, j) == L[j * nx + i + 1]
Inside(i, n) == 0 <= i /\ i < n
Sum4(f, w) == IF \E i \in 1..Len(f) : f[i] = NAN THEN NAN ELSE SumSeq(TLCEval([i \in 1..Len(f) |-> f[i] * w[i]]))
NearestV(L, nx, ny, x, y, q) ==
    LET i == RoundDiv(x, q)  j == RoundDiv(y, q) IN IF Inside(i, nx) /\ Inside(j, ny) THEN At(L, nx, i, j) ELSE NAN
\* in q*q-ths: linear where both neighbours exist, nearest up to half a cell beyond the border
BilinearV(L, nx, ny, x, y, q) ==
    LET fl(z) == z \div q
        two(z, n) == Inside(fl(z), n) /\ Inside(fl(z) + 1, n)
        ix == IF two(x, nx) THEN <<fl(x), fl(x) + 1>> ELSE <<RoundDiv(x, q), RoundDiv(x, q)>>
        iy == IF two(y, ny) THEN <<fl(y), fl(y) + 1>> ELSE <<RoundDiv(y, q), RoundDiv(y, q)>>
        wx == IF two(x, nx) THEN <<q - (x % q), x % q>> ELSE <<q, 0>>
        wy == IF two(y, ny) THEN <<q - (y % q), y % q>> ELSE <<q, 0>>
    IN IF ~(Inside(ix[1], nx) /\ Inside(iy[1], ny)) THEN NAN
       ELSE Sum4(<<At(L, nx, ix[1], iy[1]), At(L, nx, ix[2], iy[1]), At(L, nx, ix[1], iy[2]), At(L, nx, ix[2], iy[2])>>,
                 <<wx[1] * wy[1], wx[2] * wy[1], wx[1] * wy[2], wx[2] * wy[2]>>)
\* cubic convolution with a = -1/2, in (2 q^3)^2-ths; undefined where not all 16 neighbours exist
CubicW(t, q) == <<-t*q*q + 2*t*t*q - t*t*t, 2*q*q*q - 5*t*t*q + 3*t*t*t, t*q*q + 4*t*t*q - 3*t*t*t, -t*t*q + t*t*t>>
BicubicV(L, nx, ny, x, y, q) ==
    LET i == x \div q  j == y \div q
        wx == CubicW(x % q, q)  wy == CubicW(y % q, q)
    IN IF ~(1 <= i /\ i + 2 < nx /\ 1 <= j /\ j + 2 < ny) THEN NAN
       ELSE Sum4(TLCEval([k \in 1..16 |-> At(L, nx, i - 1 + ((k-1) % 4), j - 1 + (k-1) \div 4)]), TLCEval([k \in 1..16 |-> wx[((k-1) % 4) + 1] * wy[(k-1) \div 4 + 1]]))
Method(m, L, nx, ny, x, y, q) ==
    CASE m = "nearestneighbor" -> NearestV(L, nx, ny, x, y, q)
      [] m = "bilinear"        -> BilinearV(L, nx, ny, x, y, q)
      [] m = "bicubic"         -> BicubicV(L, nx, ny, x, y, q)
Denominator(m, q) == CASE m = "nearestneighbor" -> 1 [] m = "bilinear" -> q * q [] m = "bicubic" -> 4 * q * q * q * q * q * q
\* c.d: nz layers of ny rows of nx columns
FieldObs(c) ==
    [st |-> "ok", d |-> TLCEval([k \in 1..c.nz |->
        Method(c.m, SubSeq(c.d, (k-1) * c.nx * c.ny + 1, k * c.nx * c.ny), c.nx, c.ny, c.x, c.y, c.q)])]

\* ----------------------------------------------- a dataset on another grid
\* g = [x, y: names of the axes, deg: 1 for longitude/latitude]; variables on both (first in their shape) are
\* interpolated layer by layer, other variables sharing one of them cannot be kept
\* pos: sequence of <<px, py>> positions of the new points, in r-ths
OnGrid(ds, v, g) == HasDim(ds, v, g.x) /\ HasDim(ds, v, g.y)
Touches(ds, v, g) == HasDim(ds, v, g.x) \/ HasDim(ds, v, g.y)
\* from a number of den-ths to the variable's type; undefined becomes the fill value
AsStored(ds, v, n, den) ==
    IF n = NAN THEN RawFill(ds, v)
    ELSE IF ds.vars[v].t \in IntTypes THEN RoundDiv(n, den)
    ELSE IF n % den = 0 THEN n \div den ELSE FRAC
\* processes before and after the interpolation, layer by layer: undefined values of a layer that is not undefined
\* throughout are replaced by a default; the first of several processes finds the undefined values
NoProcess == [pre |-> <<>>, post |-> <<>>]
LayerProcessed(ps, L) == IF ps = <<>> \/ \A i \in 1..Len(L) : L[i] = NAN THEN L ELSE TLCEval([i \in 1..Len(L) |-> IF L[i] = NAN THEN ps[1] ELSE L[i]])
Regrid(ds, v, g, m, pos, r, pp) ==
    LET d  == ds.vars[v].d
        nx == ds.dims[g.x].len
        ny == ds.dims[g.y].len
        nz == Len(d) \div (nx * ny)
        np == Len(pos)
        den == Denominator(m, r)
        at(k) == TLCEval([i \in 1..(nx*ny) |-> LET z == d[(k-1)*nx*ny + i] IN IF IsMissing(ds, v, z) THEN NAN ELSE z])
        post == [i \in 1..Len(pp.post) |-> pp.post[i] * den]
    IN ConcatAll([k \in 1..nz |->
          LET L == LayerProcessed(pp.pre, at(k))
              M == LayerProcessed(post, TLCEval([i \in 1..np |-> Method(m, L, nx, ny, pos[i][1], pos[i][2], r)]))
          IN TLCEval([i \in 1..np |-> AsStored(ds, v, M[i], den)])])
KeptVars(ds, g) == {v \in DOMAIN ds.vars : OnGrid(ds, v, g) \/ ~Touches(ds, v, g)} \ {g.x, g.y}
Str(s) == [t |-> "string", s |-> s]
WithConventions(ga) ==
    IF "Conventions" \notin DOMAIN ga THEN Put(ga, "Conventions", Str("CF-1.4")) ELSE ga
AxisPos(ds, a, type, pts, q, r) == [i \in 1..Len(pts) |-> Position(ds.vars[a].d, type, pts[i], q, r)]

\* to a grid of the same kind of coordinates, spanned by the axes c.xs, c.ys (in q-ths)
ToAxes(ds, c, pp) ==
    LET g  == c.g
        px == TLCEval(AxisPos(ds, g.x, IF g.deg = 1 THEN "lon" ELSE "lin", c.xs, c.q, c.r))
        py == TLCEval(AxisPos(ds, g.y, "lin", c.ys, c.q, c.r))
        nx == Len(c.xs)  ny == Len(c.ys)
        pos == TLCEval([i \in 1..(nx*ny) |-> <<px[((i-1) % nx) + 1], py[(i-1) \div nx + 1]>>])
        a0(a) == IF g.deg = 1 THEN EmptyFn ELSE Without(ds.vars[a].a, {"long_name"})
        axis(a, t, sn, u, vals) == [t |-> t, sh |-> <<a>>, a |-> Put(Put(a0(a), "standard_name", Str(sn)), "units", Str(u)),
                                    d |-> [i \in 1..Len(vals) |-> IF t \in IntTypes THEN TruncDiv(vals[i], c.q) ELSE IF vals[i] % c.q = 0 THEN vals[i] \div c.q ELSE FRAC]]
        new == [v \in KeptVars(ds, g) |->
                  IF ~OnGrid(ds, v, g) THEN ds.vars[v]
                  ELSE [ds.vars[v] EXCEPT !.a = IF g.deg = 1 THEN Without(@, {"coordinates", "grid_mapping"}) ELSE Put(Put(@, "coordinates", Str("lon lat")), "grid_mapping", Str("projection_stere")), !.d = Regrid(ds, v, g, c.m, pos, c.r, pp)]]
        ax == (g.x :> axis(g.x, c.xt, IF g.deg = 1 THEN "longitude" ELSE "projection_x_coordinate", IF g.deg = 1 /\ c.xu = "degree" THEN "degrees_east" ELSE c.xu, c.xs))
              @@ (g.y :> axis(g.y, c.yt, IF g.deg = 1 THEN "latitude" ELSE "projection_y_coordinate", IF g.deg = 1 /\ c.yu = "degree" THEN "degrees_north" ELSE c.yu, c.ys))
    IN [ds EXCEPT !.dims = TLCEval([d \in DOMAIN @ |-> IF d = g.x THEN [@[d] EXCEPT !.len = nx] ELSE IF d = g.y THEN [@[d] EXCEPT !.len = ny] ELSE @[d]]),
                  !.vars = TLCEval(ax @@ new), !.ga = WithConventions(@)]

\* to single points given by longitude and latitude (in q-ths), on new dimensions x and y
PointAxis(nm, n, u, s, l) ==
    [t |-> "double", sh |-> <<nm>>, d |-> Iota(n),
     a |-> [axis |-> Str(nm), long_name |-> Str(l), standard_name |-> Str(s), units |-> Str(u)]]
ToPoints(ds, c, pp) ==
    LET g  == c.g
        px == TLCEval(AxisPos(ds, g.x, "lon", c.lon, c.q, c.r))
        py == TLCEval(AxisPos(ds, g.y, "lin", c.lat, c.q, c.r))
        n  == Len(px)
        pos == TLCEval([i \in 1..n |-> <<px[i], py[i]>>])
        ren(s) == [k \in 1..Len(s) |-> IF s[k] = g.x THEN "x" ELSE IF s[k] = g.y THEN "y" ELSE s[k]]
        coord(nm, u, vals) == [t |-> "double", sh |-> <<"x", "y">>, d |-> [i \in 1..n |-> IF vals[i] % c.q = 0 THEN vals[i] \div c.q ELSE FRAC],
                               a |-> [standard_name |-> Str(nm), long_name |-> Str(nm), units |-> Str(u)]]
        new == [v \in KeptVars(ds, g) |->
                  IF ~OnGrid(ds, v, g) THEN ds.vars[v]
                  ELSE [ds.vars[v] EXCEPT !.sh = ren(@), !.a = Put(Without(@, {"grid_mapping"}), "coordinates", Str("longitude latitude")),
                                          !.d = Regrid(ds, v, g, c.m, pos, c.r, pp)]]
        ax == ("x" :> PointAxis("x", c.nx, c.xu, "projection_x_coordinate", "x-coordinate in Cartesian system"))
              @@ ("y" :> PointAxis("y", c.ny, c.yu, "projection_y_coordinate", "y-coordinate in Cartesian system"))
              @@ ("longitude" :> coord("longitude", "degree_east", c.lon)) @@ ("latitude" :> coord("latitude", "degree_north", c.lat))
    IN [ds EXCEPT !.dims = Put(Put(Without(@, {g.x, g.y}), "x", [len |-> c.nx, u |-> 0]), "y", [len |-> c.ny, u |-> 0]),
                  !.vars = TLCEval(ax @@ new)]
=============================================================================
