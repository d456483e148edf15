------------------------------ MODULE FxExtract -----------------------------
(* Extraction: a view on a source that keeps, per dimension, a set of       *)
(* positions of the source's dimension, and a set of variables.             *)
EXTENDS FxTime

\* x.src: what is extracted from; x.sel[n]: the positions kept of dimension n (ascending)
NewExtract(src) == Put(src, "x", [src |-> Without(src, {"x"}), sel |-> EmptyFn, gone |-> {}])

RECURSIVE PickAll(_, _, _)
PickAll(ds, sel, N) ==
    IF N = {} THEN ds
    ELSE LET n == CHOOSE m \in N : TRUE IN PickAll(TLCEval(Pick(ds, n, sel[n])), sel, N \ {n})
View(x) ==
    LET kept == [x.src EXCEPT !.vars = Without(@, x.gone)]
    IN Put(TLCEval(PickAll(TLCEval(kept), x.sel, DOMAIN x.sel)), "x", x)

\* positions are those of the source's dimension, whatever was selected before
SelectPositions(ds, n, posn) ==
    LET pos == TLCEval(posn)
        sel == TLCEval(SetToSortedSeq(pos))
    IN IF n \notin DOMAIN ds.x.src.dims THEN [st |-> "err", ds |-> ds]
       ELSE IF \E p \in pos : p < 0 \/ p >= ds.x.src.dims[n].len THEN [st |-> "err", ds |-> ds]
       ELSE [st |-> "ok", ds |-> TLCEval(View(TLCEval([ds.x EXCEPT !.sel = Put(@, n, sel)])))]
SelectRange(ds, n, start, size) ==
    IF n \notin DOMAIN ds.x.src.dims THEN [st |-> "err", ds |-> ds]
    ELSE IF start < 0 \/ size < 0 \/ start + size > ds.x.src.dims[n].len THEN [st |-> "err", ds |-> ds]
    ELSE SelectPositions(ds, n, start..(start+size-1))
\* end > 0: last position kept, end <= 0: counted from the end of the dimension as it is now
SelectStartEnd(ds, n, start, end) ==
    IF n \notin DOMAIN ds.dims THEN [st |-> "err", ds |-> ds]
    ELSE SelectRange(ds, n, start, IF end > 0 THEN end - start + 1 ELSE ds.dims[n].len - start + end)
RemoveVariables(ds, V) ==
    [st |-> "ok", ds |-> View([ds.x EXCEPT !.gone = @ \cup (V \cap DOMAIN ds.x.src.vars)])]
KeepVariables(ds, V) == RemoveVariables(ds, DOMAIN ds.vars \ V)

\* positions whose value lies within [lo, hi], allowing 1% of the first step of the axis
InRange(vals, lo, hi) ==
    LET tol == IF Len(vals) > 1 THEN Abs(vals[1] - vals[2]) \div 100 ELSE 0
    IN {i - 1 : i \in {j \in 1..Len(vals) : lo - tol <= vals[j] /\ vals[j] <= hi + tol}}
\* axes: the axes concerned, with their values in the unit asked for; a dimension that has been reduced stays as it is
RECURSIVE ReduceAxes(_, _, _, _, _)
ReduceAxes(ds, axes, val, lo, hi) ==
    IF axes = <<>> THEN [st |-> "ok", ds |-> ds]
    ELSE LET a == Head(axes)  n == ds.x.src.vars[a].sh[1]  new == TLCEval(IF n \in DOMAIN ds.x.sel THEN ds ELSE SelectPositions(ds, n, InRange(val[a], lo, hi)).ds)
         IN ReduceAxes(new, Tail(axes), val, lo, hi)
ReduceTime(ds, c) ==
    LET src == ds.x.src
        val == [a \in Range(c.axes) |-> [i \in 1..Len(src.vars[a].d) |-> InSeconds(src.vars[a].d[i], UnitsOf(src, a))]]
    IN ReduceAxes(ds, c.axes, TLCEval(val), c.lo, c.hi)
\* in thousandths
ReduceLevel(ds, c) ==
    LET src == ds.x.src
        fit == SelectSeq(c.axes, LAMBDA a : ConvertibleU(UnitsOf(src, a), c.unit))
        val == [a \in Range(fit) |-> [i \in 1..Len(src.vars[a].d) |-> InUnit(PhysM(src, a, src.vars[a].d[i]), UnitConv(UnitsOf(src, a), c.unit))]]
    IN ReduceAxes(ds, fit, TLCEval(val), c.lo, c.hi)
\* quarters of a degree; longitudes go round
Lon180(x) == ((x + 720) % 1440) - 720
ReduceBox(ds, c) ==
    LET src   == ds.x.src
        lons(x) == {i \in 1..Len(src.vars[x].d) : LET l == Lon180(PhysM(src, x, src.vars[x].d[i]) \div 250)
                                                     IN \E k \in {l, l + (IF l = -720 THEN 1440 ELSE 0)} : IF c.w > c.e THEN k >= c.w \/ k <= c.e ELSE c.w <= k /\ k <= c.e}
        lats(y) == {i \in 1..Len(src.vars[y].d) : LET l == PhysM(src, y, src.vars[y].d[i]) \div 250 IN c.s <= l /\ l <= c.n}
        one(d, p) == LET X == lons(p[1])  Y == lats(p[2])  some == X # {} /\ Y # {}
                         at(S) == IF some THEN {i - 1 : i \in S} ELSE {}
                     IN TLCEval(SelectPositions(TLCEval(SelectPositions(d, p[1], at(X)).ds), p[2], at(Y)).ds)
        RECURSIVE all(_, _)
        all(d, G) == IF G = <<>> THEN d ELSE all(TLCEval(one(d, Head(G))), Tail(G))
    IN IF c.s > c.n \/ c.s < -360 \/ c.n > 360 \/ c.s > 360 \/ c.n < -360 \/ \E l \in {c.w, c.e} : l < -720 \/ l > 720 THEN [st |-> "err", ds |-> ds]
       ELSE [st |-> "ok", ds |-> all(ds, c.grids)]

ExtractOp(ds, c) ==
    CASE c.do = "range" -> SelectRange(ds, c.dim, c.start, c.size)
      [] c.do = "set"   -> SelectPositions(ds, c.dim, Range(c.pos))
      [] c.do = "se"    -> SelectStartEnd(ds, c.dim, c.start, c.end)
      [] c.do = "rm"    -> RemoveVariables(ds, {c.var})
      [] c.do = "time"  -> ReduceTime(ds, c)
      [] c.do = "level" -> ReduceLevel(ds, c)
      [] c.do = "bbox"  -> ReduceBox(ds, c)
      [] c.do = "keep"  -> KeepVariables(ds, Range(c.keep))
=============================================================================
