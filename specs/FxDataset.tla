------------------------------ MODULE FxDataset -----------------------------
(* A dataset is what any reader presents: dimensions, typed variables with  *)
(* a shape, attributes and data.  Values are integers; the codes below      *)
(* stand for what an integer cannot express.                                *)
(*   ds.dims[n] = [len, u]      u = 1: the unlimited dimension              *)
(*   ds.vars[n] = [t, sh, a, d] t type, sh shape (fastest first),           *)
(*                              a attributes (coded "type:values"), d data  *)
(*   ds.ga      = global attributes                                         *)
EXTENDS FxArrays

NAN  == 2000000000
INF  == 2000000001
BIG  == 2000000002   \* larger than the coding can express
FRAC == 2000000003   \* not a multiple of the requested resolution

Ok(o)  == Put(o, "st", "ok")
OkE    == [st |-> "ok"]
Err    == [st |-> "err"]

Lens(ds, v) == [k \in 1..Len(ds.vars[v].sh) |-> ds.dims[ds.vars[v].sh[k]].len]
Size(ds, v) == Prod(Lens(ds, v))
UnlimDims(ds) == {n \in DOMAIN ds.dims : ds.dims[n].u = 1}
IsUnlim(ds, n) == n \in DOMAIN ds.dims /\ ds.dims[n].u = 1
HasUnlim(ds, v) == \E k \in 1..Len(ds.vars[v].sh) : IsUnlim(ds, ds.vars[v].sh[k])
DimsKnown(ds, v) == \A k \in 1..Len(ds.vars[v].sh) : ds.vars[v].sh[k] \in DOMAIN ds.dims
HasDim(ds, v, n) == \E k \in 1..Len(ds.vars[v].sh) : ds.vars[v].sh[k] = n
HasData(ds, v) == "d" \in DOMAIN ds.vars[v]
Attr(ds, v, n) == ds.vars[v].a[n]
HasAttr(ds, v, n) == n \in DOMAIN ds.vars[v].a
SetData(ds, v, d) == [ds EXCEPT !.vars[v] = Put(@, "d", d)]
SetAttr(ds, v, n, x) == [ds EXCEPT !.vars[v].a = Put(@, n, x)]

\* well-formed: every variable's shape exists and the data fill it
WellFormed(ds) ==
    /\ Cardinality(UnlimDims(ds)) <= 1
    /\ \A v \in DOMAIN ds.vars :
         /\ DimsKnown(ds, v)
         /\ HasData(ds, v) => Len(ds.vars[v].d) = Size(ds, v)

\* what the metadata of a dataset look like from outside
Desc(ds) ==
    [st |-> "ok", dup |-> 0, dims |-> ds.dims, ga |-> ds.ga,
     vars |-> TLCEval([v \in DOMAIN ds.vars |-> [t |-> ds.vars[v].t, sh |-> ds.vars[v].sh, a |-> ds.vars[v].a]])]

\* index lists of a block; sl[n] = <<start, size>> restricts dimension n
BlockIdx(ds, v, sl) ==
    [k \in 1..Len(ds.vars[v].sh) |->
        LET n == ds.vars[v].sh[k] IN
        IF n \in DOMAIN sl THEN Span(sl[n][1], sl[n][2]) ELSE Iota(ds.dims[n].len)]
BlockOk(ds, v, sl) ==
    \A n \in DOMAIN sl : /\ HasDim(ds, v, n)
                         /\ sl[n][1] >= 0 /\ sl[n][2] >= 0
                         /\ sl[n][1] + sl[n][2] <= ds.dims[n].len
Block(ds, v, sl) == Gather(ds.vars[v].d, Lens(ds, v), BlockIdx(ds, v, sl))
\* the slice at one position of the unlimited dimension
PosSl(ds, v, p) == [n \in {m \in UnlimDims(ds) : HasDim(ds, v, m)} |-> <<p, 1>>]

\* restrict dimension n of a whole dataset to the given 0-based positions
Pick(ds, n, pos) ==
    TLCEval([ds EXCEPT
        !.dims[n].len = Len(pos),
        !.vars = TLCEval([v \in DOMAIN ds.vars |->
            IF HasDim(ds, v, n) /\ HasData(ds, v)
            THEN [ds.vars[v] EXCEPT !.d =
                    TLCEval(Gather(@, Lens(ds, v), [k \in 1..Len(ds.vars[v].sh) |->
                        IF ds.vars[v].sh[k] = n THEN pos ELSE Iota(ds.dims[ds.vars[v].sh[k]].len)]))]
            ELSE ds.vars[v]])])
=============================================================================
