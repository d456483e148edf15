------------------------------- MODULE FxMerge ------------------------------
(* Two datasets on one grid: an inner (top) dataset laid over an outer      *)
(* (base) one, with a transition along the inner border, and their merge on *)
(* a third grid.                                                            *)
EXTENDS FxHorizontal, FxFill

\* ------------------------------------------------------------- transition
\* weight of the outer value at point x, y (from 0), as <<a, b>>: sqrt(a) / b; at most 1
\* bw points at the border are the outer's, then tw points lead linearly to the inner
AlphaSq(x, y, nx, ny, tw, bw) ==
    LET x1 == bw + tw  y1 == bw + tw  x2 == nx - bw - tw  y2 == ny - bw - tw
        \* distance from the inner part
        ax == IF x < x1 THEN x1 - x ELSE IF x >= x2 THEN x - x2 ELSE 0
        ay == IF y < y1 THEN y1 - y ELSE IF y >= y2 THEN y - y2 ELSE 0
    IN IF x < bw \/ x >= nx - bw \/ y < bw \/ y >= ny - bw THEN tw * tw ELSE Min2(tw * tw, ax * ax + ay * ay)
RECURSIVE IsqrtUp(_, _)
IsqrtUp(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE IsqrtUp(n, k + 1)
Isqrt(n) == IsqrtUp(n, 0)
\* square root of n times 1000 (n small)
Root1000(n) ==
    LET r == Isqrt(n)
        step(z, k, lim) == LET Z == {d \in 0..9 : (z + d * k) * (z + d * k) <= lim} IN z + k * SetMax(Z)
        a == step(10 * r, 1, n * 100)       \* tenths
        b == step(10 * a, 1, n * 10000)
        e == step(10 * b, 1, n * 1000000)
    IN e
BlendObs(c) ==
    LET want == TLCEval([i \in 1..(c.nx * c.ny) |->
            LET q == AlphaSq((i-1) % c.nx, (i-1) \div c.nx, c.nx, c.ny, c.tw, c.bw) IN 1000 * c.vi + (Root1000(q) * (c.vo - c.vi)) \div c.tw])
        o == c.env
    IN IF o.st = "ok" /\ Len(o.d) = Len(want) /\ \A i \in 1..Len(want) : Abs(o.d[i] - want[i]) <= 2 + Abs(c.vo - c.vi) THEN o ELSE [st |-> "ok", wanted |-> want]

\* ------------------------------------------------------------------ grids
\* the base on the top's axes: g, tg = [x, y, deg: 1] of base and top
OnAxesOf(base, top, c) ==
    ToAxes(base, [g |-> c.g, m |-> c.m, xs |-> top.vars[c.tg.x].d, ys |-> top.vars[c.tg.y].d, q |-> 1, r |-> IF c.m = "nearestneighbor" THEN 320 ELSE 4,
                  xt |-> "double", yt |-> "double", xu |-> UnitsOf(top, c.tg.x), yu |-> UnitsOf(top, c.tg.y)], NoProcess)
RestDims(ds, v, g) == SelectSeq(ds.vars[v].sh, LAMBDA d : d \notin {g.x, g.y})
Compatible(b, top, v, c) == RestDims(b, v, c.g) = RestDims(top, v, c.tg) /\ (OnGrid(b, v, c.g) <=> OnGrid(top, v, c.tg))
\* variables of the top that the base has too, and the axes they are on
Common(b, top, c) == {v \in DOMAIN top.vars : v \in DOMAIN b.vars /\ Compatible(b, top, v, c)}
KeptOfTop(b, top, c) ==
    LET C == Common(b, top, c) IN C \cup {d \in DOMAIN top.vars : \E v \in C : HasDim(top, v, d)}
\* physical values of b's variable v in the unit of the top's, as in the base's slices
BasePhys(b, top, v) ==
    LET k == IF UnitsOf(b, v) = "" \/ UnitsOf(top, v) = "" THEN <<1, 1, 0>> ELSE UnitConv(UnitsOf(b, v), UnitsOf(top, v))
        p == PhysSeq(b, v, b.vars[v].d)
    IN TLCEval([i \in 1..Len(p) |-> InUnit(p[i], k)])
UnitsFit(b, top, v) == UnitsOf(b, v) = "" \/ UnitsOf(top, v) = "" \/ ConvertibleU(UnitsOf(b, v), UnitsOf(top, v))
IsAxis(ds, v) == v \in DOMAIN ds.dims
OverlayVar(b, top, v) ==
    LET p == BasePhys(b, top, v)
        d == top.vars[v].d
    IN IF ~UnitsFit(b, top, v) THEN Put(top.vars[v], "bad", 1)
       ELSE [top.vars[v] EXCEPT !.d = TLCEval([i \in 1..Len(d) |-> IF ~IsMissing(top, v, d[i]) THEN d[i] ELSE FilledAs(top, v, p[i], <<1, 1, 0>>)])]
\* inner and outer value (thousandths, NAN: undefined) with the outer's weight sqrt(q) / tw
Blended(mi, mo, q, c) ==
    IF mi = NAN THEN (IF c.use = 1 THEN mo ELSE NAN)
    ELSE IF mo = NAN \/ mi = mo \/ q = 0 THEN mi
    ELSE LET r == Isqrt(q) IN IF r * r # q THEN FRAC ELSE mi + r * ((mo - mi) \div c.tw)
SmoothVar(b, top, v, c) ==
    LET p == BasePhys(b, top, v)
        d == top.vars[v].d
        m == PhysSeq(top, v, d)
        nx == top.dims[c.tg.x].len  ny == top.dims[c.tg.y].len
        z(i) == LET k == (i - 1) % (nx * ny) IN Blended(m[i], p[i], AlphaSq(k % nx, k \div nx, nx, ny, c.tw, c.bw), c)
    IN IF ~UnitsFit(b, top, v) THEN Put(top.vars[v], "bad", 1)
       ELSE IF ~OnGrid(top, v, c.tg) THEN top.vars[v]
       ELSE [top.vars[v] EXCEPT !.d = TLCEval([i \in 1..Len(d) |-> LET x == z(i) IN IF x = FRAC THEN FRAC ELSE FilledAs(top, v, x, <<1, 1, 0>>)])]
MergedDs(b, top, c, Var(_)) ==
    LET K == KeptOfTop(b, top, c)  C == Common(b, top, c)
        vars == TLCEval([v \in K |-> IF v \in C /\ ~IsAxis(top, v) THEN Var(v) ELSE top.vars[v]])
    IN [top EXCEPT !.vars = vars]
Overlay(base, top, c) ==
    LET b == TLCEval(OnAxesOf(base, top, c))
        r == MergedDs(b, top, c, LAMBDA v : OverlayVar(b, top, v))
        more == DOMAIN b.vars \ DOMAIN top.vars
    IN IF c.keep = 0 THEN r
       ELSE [r EXCEPT !.dims = @ @@ b.dims, !.vars = TLCEval(@ @@ [v \in more |-> b.vars[v]])]
Smooth(base, top, c) ==
    LET b == TLCEval(OnAxesOf(base, top, c)) IN MergedDs(b, top, c, LAMBDA v : SmoothVar(b, top, v, c))
\* the inner axis continued to the ends of the outer one
ExtendAxis(ai, ao) ==
    LET st == ai[2] - ai[1]  lo == SetMin(Range(ao))  hi == SetMax(Range(ao))
        n == Len(ai)
        K == {k \in -400..400 : lo <= ai[1] + k * st /\ ai[1] + k * st <= hi}
        k0 == SetMin(K \cup {0})  k1 == SetMax(K \cup {n - 1})
    IN [i \in 1..(k1 - k0 + 1) |-> ai[1] + (k0 + i - 1) * st]
Merge(base, top, c) ==
    LET s == TLCEval(Smooth(base, top, Put(c, "m", "bilinear")))
        own == c.xs = <<>>
        xs == IF own THEN TLCEval(ExtendAxis(top.vars[c.tg.x].d, base.vars[c.g.x].d)) ELSE c.xs
        ys == IF own THEN TLCEval(ExtendAxis(top.vars[c.tg.y].d, base.vars[c.g.y].d)) ELSE c.ys
        u(a) == IF own THEN UnitsOf(top, a) ELSE "degree"
        t(a) == IF own THEN top.vars[a].t ELSE "double"
        st == TLCEval(ToAxes(s, [g |-> c.tg, m |-> c.m, xs |-> xs, ys |-> ys, q |-> 1, r |-> 320, xt |-> t(c.tg.x), yt |-> t(c.tg.y), xu |-> u(c.tg.x), yu |-> u(c.tg.y)], NoProcess))
    IN Overlay(base, st, c)
=============================================================================
