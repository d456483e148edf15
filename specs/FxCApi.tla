------------------------------- MODULE FxCApi -------------------------------
(* The C interface shows the same datasets; a callback takes the place of a  *)
(* variable's values.                                                        *)
EXTENDS FxFill

CDescObs(ds) ==
    [st |-> "ok", nv |-> Cardinality(DOMAIN ds.vars), nd |-> Cardinality(DOMAIN ds.dims), none |-> 0,
     v |-> TLCEval([v \in DOMAIN ds.vars |-> ds.vars[v].t]), d |-> TLCEval([d \in DOMAIN ds.dims |-> ds.dims[d].len]),
     u |-> IF UnlimDims(ds) = {} THEN "" ELSE CHOOSE u \in UnlimDims(ds) : TRUE]

CSliceObs(ds, c) ==
    LET sh == ds.vars[c.var].sh IN
    IF ~BlockOk(ds, c.var, c.sl) THEN Err
    ELSE [st |-> "ok", beyond |-> "",
          l |-> TLCEval([k \in 1..Len(sh) |-> IF sh[k] \in DOMAIN c.sl THEN <<sh[k], c.sl[sh[k]][1], c.sl[sh[k]][2]>> ELSE <<sh[k], 0, ds.dims[sh[k]].len>>])]

\* a variable under a callback: unpacked double values, missing ones NaN
Callback(ds, c) ==
    LET v == c.var
        m == PhysSeq(ds, v, ds.vars[v].d)
        whole(x) == IF x = NAN THEN NAN ELSE IF x % 1000 = 0 THEN x \div 1000 ELSE FRAC
        one(x) == CASE c.what = "twice" -> (IF x = NAN THEN NAN ELSE whole(2 * x + 1000))
                    [] c.what = "sizes" -> Cardinality(DOMAIN ds.vars)
                    [] OTHER -> 0
        var == [ds.vars[v] EXCEPT !.t = "double", !.d = TLCEval([i \in 1..Len(m) |-> one(m[i])]),
                                  !.a = Put(Without(@, {"scale_factor", "add_offset", "missing_value"}), "_FillValue", [t |-> "double", m |-> <<NAN>>])]
    IN [ds EXCEPT !.vars[v] = IF c.what = "fails" \/ Has(ds.vars[v], "bad") THEN Put(var, "bad", 1) ELSE var]
=============================================================================
