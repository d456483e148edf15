------------------------------ MODULE FxNetcdf ------------------------------
(* Writing a dataset to a NetCDF file, with the changes a writer            *)
(* configuration asks for; what is read back is Written(ds, cfg, type).     *)
(*   cfg.rm    <<<<kind, name>>>>                                           *)
(*   cfg.vars  <<[name, newname, type, rmatts, atts]>>                      *)
(*   cfg.dims  <<[name, newname]>>      cfg.atts <<[name, newname, v]>>     *)
(*   cfg.auto  1: unused dimensions are left out                            *)
(*   cfg.ft    file type, overrides the writer's                            *)
EXTENDS FxNcml

NoCfg == [rm |-> <<>>, vars |-> <<>>, dims |-> <<>>, atts |-> <<>>, auto |-> 1, ft |-> ""]
ClassicTypes == {"char", "short", "int", "float", "double", "string"}
FileTypes(type) == IF type \in {"netcdf4", "nc4"} THEN ClassicTypes \cup IntTypes \cup {"strings"} ELSE ClassicTypes
Representable(ds, type) ==
    LET ok(a) == \A n \in DOMAIN a : a[n].t \in FileTypes(type) \/ (a[n].t = "strings" /\ Len(a[n].l) = 1)
    IN ok(ds.ga) /\ \A v \in DOMAIN ds.vars : ds.vars[v].t \in FileTypes(type) /\ ok(ds.vars[v].a)
\* flavours without lists of texts hold a list of one as a text
TextAtts(a, type) == IF "strings" \in FileTypes(type) THEN a
                     ELSE TLCEval([n \in DOMAIN a |-> IF a[n].t = "strings" THEN [t |-> "string", s |-> a[n].l[1]] ELSE a[n]])
UsedDims(ds) == {d \in DOMAIN ds.dims : \E v \in DOMAIN ds.vars : HasDim(ds, v, d)}

WRemove(ds, e) ==
    CASE e[1] = "attribute" -> OkDs(PutAtts(ds, "_GLOBAL", Without(ds.ga, {e[2]})))
      [] e[1] = "variable"  -> OkDs([ds EXCEPT !.vars = Without(@, {e[2]})])
      [] OTHER -> OkDs(ds)
WRemoveDim(ds, e) == OkDs(IF e[1] = "dimension" /\ e[2] \notin UsedDims(ds) THEN [ds EXCEPT !.dims = Without(@, {e[2]})] ELSE ds)
WRemoveAtts(ds, e) == OkDs(IF e.name \in DOMAIN ds.vars THEN PutAtts(ds, e.name, Without(AttsOf(ds, e.name), Range(e.rmatts))) ELSE ds)
WType(ds, e) ==
    IF e.newname # "" /\ e.name \notin DOMAIN ds.vars THEN Bad(ds)
    ELSE IF e.type = "" THEN OkDs(ds)
    ELSE IF e.name \notin DOMAIN ds.vars THEN Bad(ds)
    ELSE OkDs([ds EXCEPT !.vars[e.name].t = e.type])
WDim(ds, e) == IF e.newname # "" /\ e.name \notin DOMAIN ds.dims THEN Bad(ds) ELSE OkDs(ds)
WAtt(ds, h, e) ==
    LET atts == AttsOf(ds, h)
        nm == IF e.newname # "" THEN e.newname ELSE e.name
        rest == Without(atts, {e.name})
    IN IF ~IsGlobal(h) /\ h \notin DOMAIN ds.vars THEN Bad(ds)
       ELSE IF DOMAIN e.v = {} /\ e.name \notin DOMAIN atts THEN Bad(ds)
       ELSE IF nm \in DOMAIN rest THEN Bad(ds)
       ELSE OkDs(PutAtts(ds, h, Put(rest, nm, IF DOMAIN e.v = {} THEN atts[e.name] ELSE e.v)))
WVarAtts(ds, e) == Steps(LAMBDA d, x : WAtt(d, e.name, x), OkDs(ds), e.atts)

\* values keep their physical meaning under the new type, packing and unit
SameStorage(o, n, v) ==
    /\ o.vars[v].t = n.vars[v].t /\ UnitsOf(o, v) = UnitsOf(n, v) /\ RawFill(o, v) = RawFill(n, v)
    /\ ScaleM(o, v) = ScaleM(n, v) /\ OffsetM(o, v) = OffsetM(n, v)
StoredAs(o, n, v) ==
    LET d == o.vars[v].d
        k == UnitConv(UnitsOf(o, v), UnitsOf(n, v))
        one(x) == IF IsMissing(o, v, x) THEN RawFill(n, v)
                  ELSE LET ph == x * ScaleM(o, v) + OffsetM(o, v)
                           p0 == ph * k[1] + (k[3] - OffsetM(n, v)) * k[2]     \* in k[2]-ths of thousandths
                           q  == Abs(ScaleM(n, v)) * k[2]
                           p  == IF ScaleM(n, v) < 0 THEN -p0 ELSE p0
                       IN IF n.vars[v].t \in IntTypes THEN RoundDiv(p, q) ELSE IF p % q = 0 THEN p \div q ELSE FRAC
    IN IF SameStorage(o, n, v) \/ ~ConvertibleU(UnitsOf(o, v), UnitsOf(n, v)) THEN d
       ELSE TLCEval([i \in 1..Len(d) |-> one(d[i])])

NameOf(m, n) == IF n \in DOMAIN m THEN m[n] ELSE n
Renamed(es) == LET R(e) == e.newname # "" IN
               [n \in {es[k].name : k \in {j \in 1..Len(es) : R(es[j])}} |-> (CHOOSE e \in Range(es) : e.name = n /\ R(e)).newname]
WriteResult(src, cfg0, type0) ==
    LET cfg  == IF DOMAIN cfg0 = {} THEN NoCfg ELSE cfg0
        type == IF cfg.ft # "" THEN cfg.ft ELSE type0
        s0   == IF Has(cfg, "ncml") THEN Ncml(src, cfg.ncml) ELSE OkDs(src)
        p1   == Steps(WRemoveAtts, Steps(WRemove, s0, cfg.rm), cfg.vars)
        p2   == Steps(WRemoveDim, p1, cfg.rm)
        p3   == IF p2.st = "ok" /\ cfg.auto = 1 THEN OkDs([p2.ds EXCEPT !.dims = TLCEval([d \in UsedDims(p2.ds) |-> @[d]])]) ELSE p2
        p4   == Steps(WDim, Steps(WType, p3, cfg.vars), cfg.dims)
        p5   == Steps(WVarAtts, Steps(LAMBDA d, x : WAtt(d, "_GLOBAL", x), p4, cfg.atts), cfg.vars)
        n    == p5.ds
        o    == s0.ds
        dm   == Renamed(cfg.dims)
        vm   == Renamed(cfg.vars) @@ dm
        back(m, D) == [x \in {NameOf(m, d) : d \in D} |-> CHOOSE d \in D : NameOf(m, d) = x]
        bd   == back(dm, DOMAIN n.dims)
        bv   == back(vm, DOMAIN n.vars)
    IN IF p5.st # "ok" THEN Bad(src)
       ELSE IF ~Representable(n, type) THEN Bad(src)
       ELSE IF \E v \in DOMAIN n.vars : ~FillOk(o, v) \/ ~FillOk(n, v) THEN Bad(src)
       ELSE IF Cardinality(DOMAIN bd) # Cardinality(DOMAIN n.dims) \/ Cardinality(DOMAIN bv) # Cardinality(DOMAIN n.vars) THEN Bad(src)
       ELSE OkDs([ga   |-> TextAtts(n.ga, type),
                  dims |-> [d \in DOMAIN bd |-> IF n.dims[bd[d]].u = 1 /\ bd[d] \notin UsedDims(n) THEN [n.dims[bd[d]] EXCEPT !.len = 0] ELSE n.dims[bd[d]]],
                  vars |-> TLCEval([v \in DOMAIN bv |->
                      LET w == n.vars[bv[v]] IN [t |-> w.t, a |-> TextAtts(w.a, type), sh |-> [k \in 1..Len(w.sh) |-> NameOf(dm, w.sh[k])], d |-> IF w.t = "strings" THEN w.d ELSE StoredAs(o, n, bv[v])]])])
=============================================================================
