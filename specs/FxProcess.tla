------------------------------ MODULE FxProcess -----------------------------
(* Processing along the unlimited dimension: running totals and increments  *)
(* of stored values.                                                        *)
EXTENDS FxDataset

\* slice size and number of slices of v; the unlimited dimension is the slowest
NSlices(ds, v) == ds.dims[CHOOSE d \in UnlimDims(ds) : TRUE].len
PSlice(ds, v) == IF NSlices(ds, v) = 0 THEN 0 ELSE Size(ds, v) \div NSlices(ds, v)
Plus(a, b) == IF a = NAN \/ b = NAN THEN NAN ELSE a + b
Minus(a, b) == IF a = NAN \/ b = NAN THEN NAN ELSE a - b
ZeroIfNan(a) == IF a = NAN THEN 0 ELSE a

\* an undefined value in the very first slice counts as nothing accumulated yet
RECURSIVE Running(_, _, _)
Running(d, n, i) ==      \* running total at flat position i, slices of size n
    IF i <= n THEN d[i]
    ELSE LET p == Running(d, n, i - n) IN Plus(IF i - n <= n THEN ZeroIfNan(p) ELSE p, d[i])
Accumulated(d, n) == TLCEval([i \in 1..Len(d) |-> Running(d, n, i)])
Increments(d, n) == TLCEval([i \in 1..Len(d) |-> IF i <= n THEN d[i] ELSE Minus(d[i], IF i <= 2*n THEN ZeroIfNan(d[i-n]) ELSE d[i-n])])

\* slices after the first are delivered in double precision when read one by one
Processed(ds, V, F(_, _)) ==
    [ds EXCEPT !.vars = TLCEval([v \in DOMAIN @ |->
        IF v \in V /\ HasUnlim(ds, v) THEN Put([@[v] EXCEPT !.d = F(@, PSlice(ds, v))], "pt", "double") ELSE @[v]])]
Process(src, acc, deacc) ==
    LET a == Processed(Without(src, {"x"}), acc, Accumulated) IN Processed(a, deacc, Increments)
ProcOk(src, acc, deacc) == (acc \cup deacc) \subseteq DOMAIN src.vars
=============================================================================
