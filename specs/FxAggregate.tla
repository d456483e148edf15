----------------------------- MODULE FxAggregate ----------------------------
(* Aggregation of several sources into one dataset.                          *)
(*  joinExisting  variables on the unlimited dimension are concatenated      *)
(*                along it; where a source cannot contribute, fill values    *)
(*  joinNew       the named variables get a new, unlimited dimension with    *)
(*                one position per source                                    *)
(*  union         every variable comes from the first source that has it     *)
(* Everything not joined behaves as in a union.                              *)
EXTENDS FxConvert

\* a = [ds: metadata so far, jv: joined variables, uv: variable -> source it comes from, n: positions per source]
Meta(r, v) == Without(r.vars[v], {"d"})
DimsOf(r, v) == Range(r.vars[v].sh)

UnionOk(ds, r, v) ==
    \A d \in DimsOf(r, v) :
        IF d \in DOMAIN ds.dims THEN ds.dims[d] = r.dims[d]
        ELSE ~(r.dims[d].u = 1 /\ UnlimDims(ds) # {})
UnionStep(a, r, k) ==
    LET new == {v \in DOMAIN r.vars : v \notin a.jv /\ v \notin DOMAIN a.uv /\ UnionOk(a.ds, r, v)}
        nd  == UNION {DimsOf(r, v) : v \in new} \ DOMAIN a.ds.dims
    IN [a EXCEPT !.ds.vars = Over(@, [v \in new |-> Meta(r, v)]),
                 !.ds.dims = Over(@, [d \in nd |-> r.dims[d]]),
                 !.uv = Over(@, [v \in new |-> k])]

\* ------------------------------------------------------------ joinExisting
JoinsIn(ds, r) == UnlimDims(r) # {} /\ (UnlimDims(ds) = {} \/ UnlimDims(ds) = UnlimDims(r))
JoinOk(ds, r, v) == HasUnlim(r, v) /\ \A d \in DimsOf(r, v) \ UnlimDims(r) : d \in DOMAIN ds.dims => ds.dims[d].len = r.dims[d].len
JoinStep(a, r, k) ==
    IF ~JoinsIn(a.ds, r) THEN UnionStep([a EXCEPT !.n = Append(@, 0)], r, k)
    ELSE LET u   == CHOOSE d \in UnlimDims(r) : TRUE
             len == r.dims[u].len
             new == {v \in DOMAIN r.vars : v \notin DOMAIN a.ds.vars /\ JoinOk(a.ds, r, v)}
             nd  == UNION {DimsOf(r, v) : v \in new} \ (DOMAIN a.ds.dims \cup {u})
             old == IF u \in DOMAIN a.ds.dims THEN a.ds.dims[u].len ELSE 0
             b   == [a EXCEPT !.ds.vars = Over(@, [v \in new |-> Meta(r, v)]),
                              !.ds.dims = Put(Over(@, [d \in nd |-> r.dims[d]]), u, [len |-> old + len, u |-> 1]),
                              !.jv = @ \cup new, !.n = Append(@, len)]
         IN UnionStep(b, r, k)
\* what source r contributes to joined variable v
SliceSize(ds, v) == Prod([k \in 1..Len(ds.vars[v].sh) |-> IF IsUnlim(ds, ds.vars[v].sh[k]) THEN 1 ELSE ds.dims[ds.vars[v].sh[k]].len])
Fits(ds, r, v) ==
    /\ v \in DOMAIN r.vars
    /\ r.vars[v].sh = ds.vars[v].sh
    /\ \A d \in DimsOf(r, v) \ UnlimDims(r) : ds.dims[d].len = r.dims[d].len
JoinPart(ds, r, v, n) ==
    IF n = 0 THEN <<>>
    ELSE IF Fits(ds, r, v) THEN r.vars[v].d
    ELSE Const(n * SliceSize(ds, v), RawFill(ds, v))

\* ----------------------------------------------------------------- joinNew
NewStep(a, r, k, dim, V) ==
    LET new == {v \in (DOMAIN r.vars) \cap V : v \notin DOMAIN a.ds.vars}
        b   == [a EXCEPT !.ds.vars = Over(@, [v \in new |-> [Meta(r, v) EXCEPT !.sh = Append(@, dim)]]),
                         !.ds.dims[dim].len = @ + 1, !.n = Append(@, 1)]
    IN UnionStep(b, r, k)
FitsNew(ds, r, v) ==
    /\ v \in DOMAIN r.vars
    /\ Append(r.vars[v].sh, CHOOSE d \in UnlimDims(ds) : TRUE) = ds.vars[v].sh
    /\ \A d \in DimsOf(r, v) : ds.dims[d].len = r.dims[d].len
NewPart(ds, r, v) == IF FitsNew(ds, r, v) THEN r.vars[v].d ELSE Const(SliceSize(ds, v), RawFill(ds, v))

\* -------------------------------------------------------------------------
EmptyAgg == [ds |-> [dims |-> EmptyFn, vars |-> EmptyFn, ga |-> EmptyFn], jv |-> {}, uv |-> EmptyFn, n |-> <<>>]
FirstStep(type, r, dim, V) ==
    LET base == [dims |-> r.dims, ga |-> r.ga, vars |-> TLCEval([v \in DOMAIN r.vars |-> Meta(r, v)])]
        jv == CASE type = "joinExisting" -> {v \in DOMAIN r.vars : HasUnlim(r, v)}
                [] type = "joinNew" -> V
                [] OTHER -> {}
        ds == IF type # "joinNew" THEN base
              ELSE [base EXCEPT
                     !.dims = Put([d \in DOMAIN @ |-> [@[d] EXCEPT !.u = 0]], dim, [len |-> 1, u |-> 1]),
                     !.vars = TLCEval([v \in DOMAIN @ |-> IF v \in V THEN [@[v] EXCEPT !.sh = Append(@, dim)] ELSE @[v]])]
    IN [ds |-> TLCEval(ds), jv |-> jv, uv |-> [v \in DOMAIN r.vars \ jv |-> 1],
        n |-> <<IF type = "joinNew" THEN 1 ELSE IF UnlimDims(r) = {} THEN 0 ELSE r.dims[CHOOSE d \in UnlimDims(r) : TRUE].len>>]
RECURSIVE AggFold(_, _, _, _, _)
AggFold(type, rs, k, dim, V) ==
    IF k = 1 THEN FirstStep(type, rs[1], dim, V)
    ELSE LET a == TLCEval(AggFold(type, rs, k - 1, dim, V)) IN
         CASE type = "joinExisting" -> JoinStep(a, rs[k], k)
           [] type = "joinNew"      -> NewStep(a, rs[k], k, dim, V)
           [] OTHER                 -> UnionStep([a EXCEPT !.n = Append(@, 0)], rs[k], k)
AggData(type, a, rs, v) ==
    IF v \in a.jv
    THEN ConcatAll([k \in 1..Len(rs) |-> IF type = "joinNew" THEN NewPart(a.ds, rs[k], v) ELSE JoinPart(a.ds, rs[k], v, a.n[k])])
    ELSE rs[a.uv[v]].vars[v].d
\* coords: the values of the joined dimension's coordinate, in order of the sources (or none)
Aggregate(type, rs, dim, V, coords, coordType) ==
    LET a  == AggFold(type, rs, Len(rs), dim, V)
        ds == [a.ds EXCEPT !.vars = TLCEval([v \in DOMAIN @ |-> Put(@[v], "d", AggData(type, a, rs, v))])]
        u  == CHOOSE d \in UnlimDims(ds) : TRUE
    IN IF coords = <<>> THEN ds
       ELSE IF type = "joinNew"
            THEN [ds EXCEPT !.vars = Put(@, dim, [t |-> coordType, sh |-> <<dim>>, a |-> EmptyFn, d |-> coords])]
       ELSE IF type = "joinExisting" /\ UnlimDims(ds) # {} /\ u \in DOMAIN ds.vars
            THEN [ds EXCEPT !.vars[u] = Put(@, "d", coords)]
       ELSE ds
=============================================================================
