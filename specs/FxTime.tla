------------------------------- MODULE FxTime -------------------------------
(* Lists of times, units of time and interpolation along the time axis.     *)
(* Times are seconds relative to 2000-01-01 00:00:00.                       *)
EXTENDS FxConvert

\* seconds per unit, and the reference time
TimeUnits ==
    ("seconds since 1970-01-01 00:00:00" :> <<1, -946684800>>) @@
    ("seconds since 2000-01-01 00:00:00" :> <<1, 0>>) @@
    ("minutes since 2000-01-02 12:00:00" :> <<60, 129600>>) @@
    ("hours since 2000-01-01 00:00:00" :> <<3600, 0>>) @@
    ("hours since 1999-12-31 18:00:00" :> <<3600, -21600>>) @@
    ("days since 1999-12-30 00:00:00" :> <<86400, -172800>>)
DefaultTimeUnit == "seconds since 1970-01-01 00:00:00"
InSeconds(v, u) == v * TimeUnits[u][1] + TimeUnits[u][2]
FromSeconds(s, u) == LET p == s - TimeUnits[u][2] IN IF p % TimeUnits[u][1] = 0 THEN p \div TimeUnits[u][1] ELSE FRAC

\* "...": continue the last step up to the following value, which ends the list
\* tk: sequence of <<0, value>> or <<1>> for dots; TRUE in the first field of the result if well-formed
RECURSIVE UpTo(_, _, _)
UpTo(cur, step, last) ==
    IF step # 0 /\ (IF step > 0 THEN cur < last ELSE cur > last) THEN <<cur>> \o UpTo(cur + step, step, last) ELSE <<last>>
RECURSIVE Expand(_, _)
Expand(tk, acc) ==
    IF tk = <<>> THEN [ok |-> TRUE, v |-> acc]
    ELSE IF Len(Head(tk)) = 2 THEN Expand(Tail(tk), Append(acc, Head(tk)[2]))
    ELSE IF Len(acc) < 2 \/ Len(tk) < 2 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE IF Len(tk[2]) # 2 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET n == Len(acc)  st == acc[n] - acc[n-1]
         IN Expand(SubSeq(tk, 3, Len(tk)), acc \o UpTo(acc[n] + st, st, tk[2][2]))

\* elements of a list: [k |-> "t", v |-> seconds], [k |-> "dots"], and for relative lists
\* [k |-> "v", v |-> n] counted from the start, [k |-> "x", v |-> n] counted from the end
TimeList(c, start, end) ==
    IF c.rel = "" THEN Expand([i \in 1..Len(c.list) |-> IF c.list[i].k = "dots" THEN <<1>> ELSE <<0, c.list[i].v>>], <<>>)
    ELSE IF Len(c.list) < 2 \/ c.list[1].k # "v" \/ c.list[2].k # "v" THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET f   == TimeUnits[c.rel][1]
             ref == TimeUnits[c.rel][2]
             w   == Abs(c.list[2].v - c.list[1].v) * f
             s0  == ((start - ref) \div w) * w + ref      \* relative time 0
             x0  == ((end - ref) \div w) * w + ref        \* relative time x
         IN Expand([i \in 1..Len(c.list) |->
                CASE c.list[i].k = "dots" -> <<1>>
                  [] c.list[i].k = "v" -> <<0, s0 + c.list[i].v * f>>
                  [] OTHER -> <<0, x0 + c.list[i].v * f>>], <<>>)
OutUnit(c) == IF c.unit = "" THEN DefaultTimeUnit ELSE c.unit
TimeSpecObs(c) ==
    LET e == TimeList(c, c.start, c.end) IN IF e.ok THEN [st |-> "ok", d |-> e.v, u |-> OutUnit(c)] ELSE Err

\* ------------------------------------------------------------ interpolation
\* positions of the old times around t
Around(old, t) ==
    LET n == Len(old)
        G == {i \in 1..n : old[i] >= t}
        p == IF G = {} THEN n ELSE SetMin(G)
    IN IF p > 1 THEN <<p - 1, p>> ELSE <<1, IF n > 1 THEN 2 ELSE 1>>
Typed(ds, v, num, den) == IF ds.vars[v].t \in IntTypes THEN RoundDiv(num, den) ELSE IF num % den = 0 THEN num \div den ELSE FRAC
Stored(ds, v, x) == IF IsMissing(ds, v, x) THEN RawFill(ds, v) ELSE x
\* between the values A at time a and B at time b; up to one interval beyond, undefined farther away
Between(ds, v, A, B, a, b, t) ==
    IF a = b \/ t = a THEN Stored(ds, v, A)
    ELSE IF t = b THEN Stored(ds, v, B)
    ELSE IF t < a - (b - a) \/ t > b + (b - a) \/ IsMissing(ds, v, A) \/ IsMissing(ds, v, B) THEN RawFill(ds, v)
    ELSE Typed(ds, v, A * (b - a) + (B - A) * (t - a), b - a)
AtTime(ds, v, n, old, t) ==
    LET p == Around(old, t)  d == ds.vars[v].d
    IN [i \in 1..n |-> Between(ds, v, d[(p[1]-1)*n + i], d[(p[2]-1)*n + i], old[p[1]], old[p[2]], t)]
\* tv: the time axis, its dimension is the unlimited one
ChangeTimes(src, tv, c) ==
    LET raw == src.vars[tv].d
        u   == UnitsOf(src, tv)
        old == [i \in 1..Len(raw) |-> InSeconds(raw[i], u)]
        e   == TimeList(c, old[1], old[Len(old)])
    IN IF ~e.ok THEN [st |-> "err"]
       ELSE [st |-> "ok", ds |->
             [src EXCEPT !.dims[tv].len = Len(e.v),
                         !.vars = TLCEval([v \in DOMAIN @ |->
                            IF v = tv THEN [@[v] EXCEPT !.t = "double", !.a = Put(@, "units", [t |-> "string", s |-> OutUnit(c)]),
                                                       !.d = [i \in 1..Len(e.v) |-> FromSeconds(e.v[i], OutUnit(c))]]
                            ELSE IF ~HasDim(src, v, tv) THEN @[v]
                            ELSE LET n == Size(src, v) \div Len(old)
                                 IN [@[v] EXCEPT !.d = ConcatAll([i \in 1..Len(e.v) |-> AtTime(src, v, n, old, e.v[i])])]])]]
=============================================================================
