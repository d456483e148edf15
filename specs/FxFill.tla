------------------------------- MODULE FxFill -------------------------------
(* A file opened for changes: a write replaces exactly the block it names,   *)
(* growing the unlimited dimension where it reaches beyond its end; filling  *)
(* puts the data of one dataset at the places of a file that have the same   *)
(* coordinates.                                                              *)
EXTENDS FxNetcdf

\* what a file holds where nothing has been written
NcFill(ds, v) == IF HasAttr(ds, v, "_FillValue") THEN RawFill(ds, v)
                 ELSE IF DefaultFill(ds.vars[v].t) = NONE THEN BIG ELSE DefaultFill(ds.vars[v].t)
\* the unlimited dimension, last in all shapes, grows to n
Grow(ds, u, n) ==
    IF n <= ds.dims[u].len THEN ds
    ELSE [ds EXCEPT !.dims[u].len = n,
                    !.vars = TLCEval([v \in DOMAIN ds.vars |->
                        IF ~HasDim(ds, v, u) THEN ds.vars[v]
                        ELSE LET per == Prod(SubSeq(Lens(ds, v), 1, Len(ds.vars[v].sh) - 1))
                             IN [ds.vars[v] EXCEPT !.d = TLCEval(@ \o Const(per * (n - ds.dims[u].len), NcFill(ds, v)))]])]
\* the block idx (one list of positions for each dimension of v) becomes e
Replace(ds, v, idx, e) ==
    LET sh == ds.vars[v].sh
        K  == {k \in 1..Len(sh) : IsUnlim(ds, sh[k])}
        g  == IF K = {} \/ Len(e) = 0 THEN ds ELSE LET k == CHOOSE k \in K : TRUE IN Grow(ds, sh[k], SetMax(Range(idx[k])) + 1)
    IN IF Len(e) = 0 THEN ds ELSE [g EXCEPT !.vars[v].d = TLCEval(Scatter(@, Lens(g, v), idx, e))]

\* a physical value m (thousandths, in a unit converting with k to the variable's) as stored value
FilledAs(ds, v, m, k) ==
    IF m = NAN THEN RawFill(ds, v)
    ELSE LET p0 == m * k[1] + (k[3] - OffsetM(ds, v)) * k[2]
             q  == Abs(ScaleM(ds, v)) * k[2]
             p  == IF ScaleM(ds, v) < 0 THEN -p0 ELSE p0
         IN IF ds.vars[v].t \in IntTypes THEN RoundDiv(p, q) ELSE IF p % q = 0 THEN p \div q ELSE FRAC

\* h: what the handle knows (lengths when it was opened), f: what the file holds
PutIdx(h, f, c) ==
    LET sh == h.vars[c.var].sh IN
    TLCEval([k \in 1..Len(sh) |->
        IF Has(c, "pos") THEN (IF IsUnlim(h, sh[k]) THEN <<c.pos>> ELSE Iota(h.dims[sh[k]].len))
        ELSE IF sh[k] \in DOMAIN c.sl THEN Span(c.sl[sh[k]][1], c.sl[sh[k]][2])
        ELSE Iota(h.dims[sh[k]].len)])
PutSlOk(h, c) ==
    Has(c, "pos") \/ \A n \in DOMAIN c.sl : /\ HasDim(h, c.var, n)
                                            /\ c.sl[n][1] >= 0 /\ c.sl[n][2] >= 0
                                            /\ (IsUnlim(h, n) \/ c.sl[n][1] + c.sl[n][2] <= h.dims[n].len)
PutSlice(h, f, c) ==
    IF c.var \notin DOMAIN h.vars THEN Bad(f)
    ELSE IF ~PutSlOk(h, c) THEN Bad(f)
    ELSE IF c.mode # "raw" /\ ~FillOk(h, c.var) THEN Bad(f)
    ELSE IF c.mode = "unit" /\ ~ConvertibleU(c.unit, UnitsOf(h, c.var)) THEN Bad(f)
    ELSE LET idx == PutIdx(h, f, c)
             n   == Prod([k \in 1..Len(idx) |-> Len(idx[k])])
             k   == IF c.mode = "unit" THEN UnitConv(c.unit, UnitsOf(h, c.var)) ELSE <<1, 1, 0>>
             e   == IF c.mode = "raw" THEN c.d ELSE TLCEval([i \in 1..Len(c.d) |-> FilledAs(h, c.var, c.d[i], k)])
         IN IF Len(c.d) = 0 THEN OkDs(f)
            ELSE IF Len(c.d) # n THEN Bad(f)
            ELSE OkDs(Replace(f, c.var, idx, e))
\* what a handle shows of the file: its own lengths
FileView(h, f) ==
    LET U == {u \in UnlimDims(h) : f.dims[u].len > h.dims[u].len}
    IN IF U = {} THEN f ELSE LET u == CHOOSE u \in U : TRUE IN Pick(f, u, Iota(h.dims[u].len))

\* --- filling ---
DimUnusable == <<-1>>
\* position in o for each position of input dimension d, or DimUnusable
DimMap(i, o, d) ==
    LET n == i.dims[d].len
        m == o.dims[d].len
        a == PhysSeq(i, d, i.vars[d].d)
        b == PhysSeq(o, d, o.vars[d].d)
        \* a missing coordinate value equals nothing
        at(k) == IF a[k] = NAN THEN 0 ELSE IndexOf(b, a[k])
        new(k) == Cardinality({j \in 1..(k-1) : at(j) = 0})
    IN IF d \in DOMAIN i.vars /\ d \in DOMAIN o.vars
       THEN IF IsUnlim(o, d) THEN [k \in 1..n |-> IF at(k) > 0 THEN at(k) - 1 ELSE m + new(k)]
            ELSE IF \E k \in 1..n : at(k) = 0 THEN DimUnusable
            ELSE [k \in 1..n |-> at(k) - 1]
       ELSE IF IsUnlim(o, d) THEN Span(m, n)
       ELSE IF n = m THEN Iota(n) ELSE DimUnusable
DimMaps(i, o) == TLCEval([d \in (DOMAIN i.dims) \cap (DOMAIN o.dims) |-> TLCEval(DimMap(i, o, d))])

Drop(sh, D) == SelectSeq(sh, LAMBDA d : d \notin D)
\* translations of dimensions: only from one slice to one slice
TrBad(t, ish, osh) == \/ ContainsX(ish, t.i) /\ Len(t.is) # 1
                      \/ ContainsX(osh, t.o) /\ Len(t.os) # 1
FillKey(ds, v) ==
    IF FillAttr(ds, v) = "" THEN LET x == DefaultFill(ds.vars[v].t) IN
         IF x # NONE THEN <<"m", x * 1000>> ELSE <<IF ds.vars[v].t \in IntTypes THEN ds.vars[v].t ELSE "real", 0>>
    ELSE <<"m", Attr(ds, v, FillAttr(ds, v)).m[1]>>
PackedAlike(i, o, v) ==
    /\ ScaleM(i, v) = ScaleM(o, v) /\ OffsetM(i, v) = OffsetM(o, v)
    /\ (~FillOk(i, v) \/ ~FillOk(o, v) \/ (FillKey(i, v) = FillKey(o, v) /\ FillKey(i, v) # <<"m", NAN>>))
\* one variable: [err, f], f the file after it
FillVar(i, o, f, v, maps, tr) ==
    LET ish == i.vars[v].sh
        osh == o.vars[v].sh
        TI  == {tr[k].i : k \in 1..Len(tr)}
        TO  == {tr[k].o : k \in 1..Len(tr)}
        bad == \E k \in 1..Len(tr) :
                  \/ TrBad(tr[k], ish, osh)
                  \/ ContainsX(ish, tr[k].i) /\ tr[k].is[1] >= i.dims[tr[k].i].len
                  \/ ContainsX(osh, tr[k].o) /\ ~IsUnlim(o, tr[k].o) /\ tr[k].os[1] >= o.dims[tr[k].o].len
        T(d) == CHOOSE k \in 1..Len(tr) : tr[k].i = d
        TX(d) == CHOOSE k \in 1..Len(tr) : tr[k].o = d
        iidx == [k \in 1..Len(ish) |-> IF ish[k] \in TI THEN <<tr[T(ish[k])].is[1]>> ELSE Iota(i.dims[ish[k]].len)]
        oidx == [k \in 1..Len(osh) |-> IF osh[k] \in TO THEN <<tr[TX(osh[k])].os[1]>> ELSE maps[osh[k]]]
        e0   == Gather(i.vars[v].d, Lens(i, v), iidx)
        e    == IF PackedAlike(i, o, v) THEN e0 ELSE TLCEval([k \in 1..Len(e0) |-> Repack(e0[k], i, v, o, v)])
        skip == \/ v \notin DOMAIN o.vars
                \/ \E d \in Range(ish) : d \in DOMAIN maps /\ maps[d] = DimUnusable
                \/ Drop(ish, TI) # Drop(osh, TO)
    IN IF skip THEN [err |-> 0, f |-> f]
       ELSE IF bad THEN [err |-> 1, f |-> f]
       ELSE IF ~PackedAlike(i, o, v) /\ (~FillOk(i, v) \/ ~FillOk(o, v)) THEN [err |-> 1, f |-> f]
       ELSE [err |-> 0, f |-> TLCEval(Replace(f, v, TLCEval(oidx), e))]
RECURSIVE FillVars(_, _, _, _, _, _)
FillVars(i, o, r, vs, maps, tr) ==
    IF vs = {} THEN r
    ELSE LET v == CHOOSE v \in vs : TRUE
             x == FillVar(i, o, r.f, v, maps, tr)
         IN FillVars(i, o, TLCEval([err |-> r.err + x.err, f |-> x.f]), vs \ {v}, maps, tr)
TrWellFormed(tr) == \A k \in 1..Len(tr) : \/ (Len(tr[k].is) <= 1 /\ Len(tr[k].os) <= 1)
                                          \/ Len(tr[k].is) = 0 \/ Len(tr[k].os) = 0
                                          \/ Len(tr[k].is) = Len(tr[k].os)
\* [st, ds]: the file is changed as far as possible even when an error is reported at the end
FillFile(i, o, tr) ==
    IF ~TrWellFormed(tr) THEN Bad(o)
    ELSE LET maps == DimMaps(i, o)
             r == FillVars(i, o, [err |-> 0, f |-> o], DOMAIN i.vars, maps, tr)
         IN [st |-> IF r.err > 0 \/ (\E d \in DOMAIN maps : maps[d] = DimUnusable) THEN "err" ELSE "ok", ds |-> r.f]
=============================================================================
