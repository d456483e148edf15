------------------------------- MODULE FxNcml -------------------------------
(* Reconfiguration of a source by an NcML document: removals, renamings,    *)
(* changed shapes, types, data and attributes, applied in this order.       *)
(* The document c.doc:                                                      *)
(*   rm    <<<<kind, name>>>>           dims  <<[name, org, len, u, over]>> *)
(*   vars  <<[name, org, type, sh, hassh, vals, hasvals, atts, rmatts]>>    *)
(*   ga, atts  <<[name, org, v]>>       (v empty: no new value)             *)
EXTENDS FxCDM, FxConvert

\* X = [st, ds]; apply F to the elements of a sequence as long as nothing fails
RECURSIVE Steps(_, _, _)
Steps(F(_, _), X, s) == IF s = <<>> \/ X.st # "ok" THEN X ELSE Steps(F, TLCEval(F(X.ds, Head(s))), Tail(s))
Of(r) == [st |-> r.st, ds |-> r.ds]
OkDs(ds) == [st |-> "ok", ds |-> ds]
Bad(ds) == [st |-> "err", ds |-> ds]

NRemove(ds, e) ==
    CASE e[1] = "variable"  -> Of(RemoveVar(ds, e[2]))
      [] e[1] = "dimension" -> Of(RemoveDim(ds, e[2], FALSE))
      [] e[1] = "attribute" -> Of(RemoveAtt(ds, "_GLOBAL", e[2]))
      [] e[1] = "group"     -> OkDs(ds)
      [] OTHER              -> Bad(ds)
OrgOrName(e) == IF e.org # "" THEN e.org ELSE e.name
NRemoveAtts(ds, e) ==
    IF e.rmatts = <<>> THEN OkDs(ds)
    ELSE IF OrgOrName(e) = "" THEN Bad(ds)
    ELSE OkDs(IF OrgOrName(e) \in DOMAIN ds.vars THEN [ds EXCEPT !.vars[OrgOrName(e)].a = Without(@, Range(e.rmatts))] ELSE ds)
NDimName(ds, e) ==
    IF e.org = "" \/ e.org \notin DOMAIN ds.dims THEN OkDs(ds)
    ELSE IF e.name = "" THEN Bad(ds)
    ELSE Of(RenameDim(ds, e.org, e.name, e.over = 1))
NDimLen(ds, e) == IF e.len < 0 THEN OkDs(ds)
                  ELSE OkDs([ds EXCEPT !.dims = Put(@, e.name, [len |-> e.len, u |-> IF e.name \in DOMAIN @ THEN @[e.name].u ELSE 0])])
NDimUnlim(ds, e) ==
    IF e.u = "" \/ e.name \notin DOMAIN ds.dims THEN OkDs(ds)
    ELSE IF e.u \notin {"true", "false"} THEN Bad(ds)
    ELSE OkDs([ds EXCEPT !.dims[e.name].u = IF e.u = "true" THEN 1 ELSE 0])
\* dimensions left out of a new shape are read at their first position
NShape(ds, e) ==
    IF e.hassh = 0 THEN OkDs(ds)
    ELSE IF OrgOrName(e) = "" THEN Bad(ds)
    ELSE IF OrgOrName(e) \notin DOMAIN ds.vars THEN OkDs(ds)
    ELSE LET v == OrgOrName(e)
             old == ds.vars[v].sh
         IN OkDs([ds EXCEPT !.vars[v] =
              [@ EXCEPT !.sh = e.sh,
                        !.d = Gather(@, Lens(ds, v), [k \in 1..Len(old) |-> IF ContainsX(e.sh, old[k]) THEN Iota(ds.dims[old[k]].len) ELSE <<0>>])]])
NVarName(ds, e) ==
    IF e.org = "" \/ e.org \notin DOMAIN ds.vars THEN OkDs(ds)
    ELSE IF e.name = "" THEN Bad(ds)
    ELSE Of(RenameVar(ds, e.org, e.name))
NVarNew(ds, e) ==
    IF e.org # "" \/ e.type = "" \/ e.name \in DOMAIN ds.vars THEN OkDs(ds)
    ELSE OkDs([ds EXCEPT !.vars = Put(@, e.name, [t |-> e.type, sh |-> e.sh, a |-> EmptyFn, d |-> <<>>, e |-> 1])])
NVarType(ds, e) ==
    IF e.type = "" THEN OkDs(ds)
    ELSE IF e.name = "" THEN Bad(ds)
    ELSE IF e.name \notin DOMAIN ds.vars \/ ds.vars[e.name].t = e.type THEN OkDs(ds)
    ELSE OkDs([ds EXCEPT !.vars[e.name] = Put([@ EXCEPT !.t = e.type], "tc", 1)])
NVarData(ds, e) ==
    IF e.hasvals = 0 THEN OkDs(ds)
    ELSE IF e.name = "" THEN Bad(ds)
    ELSE IF e.name \notin DOMAIN ds.vars THEN OkDs(ds)
    ELSE LET n == Size(ds, e.name) IN
         IF e.hasvals = 1
         THEN IF Len(e.vals) # n THEN Bad(ds)
              ELSE OkDs([ds EXCEPT !.vars[e.name] = Put(Without(@, {"e", "tc"}), "d", e.vals)])
         ELSE OkDs([ds EXCEPT !.vars[e.name] = Put(Without(@, {"e", "tc"}), "d", [i \in 1..n |-> e.vals[1] + (i-1) * e.vals[2]])])
NAttName(ds, h, e) ==
    IF e.org = "" THEN OkDs(ds)
    ELSE IF e.name = "" THEN Bad(ds)
    ELSE IF e.org \notin DOMAIN AttsOf(ds, h) THEN OkDs(ds)
    ELSE OkDs(PutAtts(ds, h, Put(Without(AttsOf(ds, h), {e.org}), e.name, AttsOf(ds, h)[e.org])))
NAttSet(ds, h, e) == IF DOMAIN e.v = {} THEN OkDs(ds) ELSE Of(SetAtt(ds, h, e.name, e.v))
NVarAttNames(ds, e) == Steps(LAMBDA d, x : NAttName(d, e.name, x), OkDs(ds), e.atts)
NVarAttSets(ds, e) == Steps(LAMBDA d, x : NAttSet(d, e.name, x), OkDs(ds), e.atts)

\* changed types: values keep their physical meaning under the new packing
Retyped(src, ds, v) ==
    LET w == ds.vars[v] IN
    IF ~Has(w, "tc") THEN w
    ELSE LET o == [dims |-> ds.dims, ga |-> ds.ga, vars |-> (v :> w.o)]
         IN IF ~FillOk(o, v) \/ ~FillOk(ds, v) THEN Put(w, "bad", 1)
            ELSE [w EXCEPT !.d = TLCEval([i \in 1..Len(w.d) |-> Repack(w.d[i], o, v, ds, v)])]
Ncml(src, doc) ==
    LET s0 == [dims |-> src.dims, ga |-> src.ga, vars |-> TLCEval([v \in DOMAIN src.vars |-> Put(src.vars[v], "o", Without(src.vars[v], {"d", "o"}))])]
        p1 == Steps(NRemove, OkDs(s0), doc.rm)
        p2 == Steps(NRemoveAtts, p1, doc.vars)
        p3 == Steps(NDimLen, Steps(NDimName, p2, doc.dims), doc.dims)
        p4 == Steps(NDimUnlim, p3, doc.dims)
        p5 == Steps(NShape, p4, doc.vars)
        p6 == Steps(NVarNew, Steps(NVarName, p5, doc.vars), doc.vars)
        p7 == Steps(NVarType, p6, doc.vars)
        p8 == Steps(NVarData, p7, doc.vars)
        p9 == Steps(NVarAttNames, Steps(LAMBDA d, x : NAttName(d, "_GLOBAL", x), p8, doc.ga), doc.vars)
        pA == Steps(NVarAttSets, Steps(LAMBDA d, x : NAttSet(d, "_GLOBAL", x), p9, doc.ga), doc.vars)
    IN IF pA.st # "ok" THEN pA
       ELSE [pA EXCEPT !.ds.vars = TLCEval([v \in DOMAIN @ |-> Without(Retyped(src, pA.ds, v), {"o", "tc"})])]
=============================================================================
