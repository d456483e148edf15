------------------------------- MODULE FxCDM --------------------------------
(* Metadata operations on a dataset description (no data involved).         *)
EXTENDS FxDataset

EmptyCDM == [dims |-> EmptyFn, vars |-> EmptyFn, ga |-> EmptyFn]

InUse(ds, n) == n \in DOMAIN ds.dims /\ \E v \in DOMAIN ds.vars : HasDim(ds, v, n)

RenameDimIn(sh, old, new) == [k \in 1..Len(sh) |-> IF sh[k] = old THEN new ELSE sh[k]]

\* every operation yields [st, ds, r]: status, resulting metadata, returned truth value
Res(st, ds, r) == [st |-> st, ds |-> ds, r |-> r]

AddDim(ds, n, len, u) ==
    IF n \in DOMAIN ds.dims THEN Res("err", ds, 0)
    ELSE Res("ok", [ds EXCEPT !.dims = Put(@, n, [len |-> len, u |-> u])], 1)
AddVar(ds, n, t, sh) ==
    IF n \in DOMAIN ds.vars THEN Res("err", ds, 0)
    ELSE Res("ok", [ds EXCEPT !.vars = Put(@, n, [t |-> t, sh |-> sh, a |-> EmptyFn])], 1)
RemoveVar(ds, n) == Res("ok", [ds EXCEPT !.vars = Without(@, {n})], 1)
\* the target is replaced, the attributes move along; nothing happens if there is no such variable
RenameVar(ds, o, n) ==
    IF o \notin DOMAIN ds.vars THEN Res("ok", ds, 0)
    ELSE IF o = n THEN Res("ok", ds, 1)
    ELSE Res("ok", [ds EXCEPT !.vars = Put(Without(@, {o, n}), n, ds.vars[o])], 1)
RemoveDim(ds, n, force) ==
    IF ~force /\ InUse(ds, n) THEN Res("err", ds, 0)
    ELSE Res("ok", [ds EXCEPT !.dims = Without(@, {n})], IF n \in DOMAIN ds.dims THEN 1 ELSE 0)
RenameDim(ds, o, n, force) ==
    IF o \notin DOMAIN ds.dims THEN Res("ok", ds, 0)
    ELSE IF o = n THEN Res("ok", ds, 1)
    ELSE IF n \in DOMAIN ds.dims /\ ~force /\ InUse(ds, n) THEN Res("err", ds, 0)
    ELSE Res("ok", [ds EXCEPT
            !.dims = Put(Without(@, {o, n}), n, ds.dims[o]),
            !.vars = TLCEval([v \in DOMAIN @ |-> [@[v] EXCEPT !.sh = RenameDimIn(@, o, n)]])], 1)
IsGlobal(v) == v = "_GLOBAL"
AttsOf(ds, v) == IF IsGlobal(v) THEN ds.ga ELSE IF v \in DOMAIN ds.vars THEN ds.vars[v].a ELSE EmptyFn
PutAtts(ds, v, a) == IF IsGlobal(v) THEN [ds EXCEPT !.ga = a] ELSE [ds EXCEPT !.vars[v].a = a]
HasHolder(ds, v) == IsGlobal(v) \/ v \in DOMAIN ds.vars
AddAtt(ds, v, n, x) ==
    IF ~HasHolder(ds, v) \/ n \in DOMAIN AttsOf(ds, v) THEN Res("err", ds, 0)
    ELSE Res("ok", PutAtts(ds, v, Put(AttsOf(ds, v), n, x)), 1)
SetAtt(ds, v, n, x) ==
    IF ~HasHolder(ds, v) THEN Res("err", ds, 0)
    ELSE Res("ok", PutAtts(ds, v, Put(AttsOf(ds, v), n, x)), 1)
RemoveAtt(ds, v, n) ==
    IF ~HasHolder(ds, v) THEN Res("ok", ds, 1)
    ELSE Res("ok", PutAtts(ds, v, Without(AttsOf(ds, v), {n})), 1)

\* variables that have all listed dimensions and, for each listed attribute, one of the listed values
FindVars(ds, want, dims) ==
    {v \in DOMAIN ds.vars :
        /\ \A i \in 1..Len(dims) : HasDim(ds, v, dims[i])
        /\ \A n \in DOMAIN want :
             /\ HasAttr(ds, v, n)
             /\ Attr(ds, v, n).t = "string"
             /\ \E i \in 1..Len(want[n]) : want[n][i] = Attr(ds, v, n).s}

CdmOp(ds, c) ==
    CASE c.do = "adddim" -> AddDim(ds, c.name, c.len, c.u)
      [] c.do = "addvar" -> AddVar(ds, c.name, c.t, c.sh)
      [] c.do = "rmvar"  -> RemoveVar(ds, c.name)
      [] c.do = "renvar" -> RenameVar(ds, c.name, c.to)
      [] c.do = "rmdim"  -> RemoveDim(ds, c.name, c.force = 1)
      [] c.do = "rendim" -> RenameDim(ds, c.name, c.to, c.force = 1)
      [] c.do = "addatt" -> AddAtt(ds, c.var, c.name, c.val)
      [] c.do = "setatt" -> SetAtt(ds, c.var, c.name, c.val)
      [] c.do = "rmatt"  -> RemoveAtt(ds, c.var, c.name)

\* answers to queries about one variable or dimension
CdmQuery(ds, c) ==
    CASE c.q = "var"  -> [st |-> "ok", has |-> IF c.name \in DOMAIN ds.vars THEN 1 ELSE 0,
                          unlim |-> IF c.name \in DOMAIN ds.vars /\ HasUnlim(ds, c.name) THEN 1 ELSE 0,
                          atts |-> AttsOf(ds, c.name)]
      [] c.q = "dim"  -> [st |-> "ok", has |-> IF c.name \in DOMAIN ds.dims THEN 1 ELSE 0,
                          used |-> IF InUse(ds, c.name) THEN 1 ELSE 0,
                          len |-> IF c.name \in DOMAIN ds.dims THEN ds.dims[c.name].len ELSE -1]
      [] c.q = "unlim" -> [st |-> "ok", name |-> IF UnlimDims(ds) = {} THEN "" ELSE CHOOSE n \in UnlimDims(ds) : TRUE]
      [] c.q = "find" -> [st |-> "ok", vars |-> [v \in FindVars(ds, c.want, c.dims) |-> 1]]
=============================================================================
