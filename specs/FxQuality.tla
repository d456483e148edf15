------------------------------ MODULE FxQuality -----------------------------
(* Quality extraction: a variable keeps its values where its status         *)
(* variable is acceptable, and is missing elsewhere.                        *)
EXTENDS FxConvert

\* lists of values: [k |-> "n", v |-> 3] a value, [k |-> "dots"] the values between its neighbours, in steps of the two before
RECURSIVE Dotted(_, _)
Dotted(tok, acc) ==
    IF tok = <<>> THEN acc
    ELSE IF Head(tok).k = "n" THEN Dotted(Tail(tok), Append(acc, Head(tok).v))
    ELSE LET n == Len(acc)  st == acc[n] - acc[n - 1]  end == tok[2].v
             k == IF st = 0 THEN 0 ELSE LET q == IF st > 0 THEN end - acc[n] ELSE acc[n] - end IN IF q <= 0 THEN 0 ELSE (q - 1) \div Abs(st)
         IN Dotted(Tail(Tail(tok)), acc \o [i \in 1..k |-> acc[n] + i * st] \o <<end>>)
RECURSIVE DottedOk(_, _)
DottedOk(tok, n) ==
    IF tok = <<>> THEN TRUE
    ELSE IF Head(tok).k = "n" THEN DottedOk(Tail(tok), n + 1)
    ELSE n >= 2 /\ Len(tok) > 1 /\ tok[2].k = "n" /\ DottedOk(Tail(Tail(tok)), n + 2)

\* a rule: var, status, ds (where the status lives), by: "values" with vals or "use" with use and arg, fill (raw)
Limit(ds, s, lo) ==
    LET one == IF lo THEN "valid_min" ELSE "valid_max"
    IN IF HasAttr(ds, s, "valid_range") THEN <<Attr(ds, s, "valid_range").m[IF lo THEN 1 ELSE 2]>>
       ELSE IF HasAttr(ds, s, one) THEN <<Attr(ds, s, one).m[1]>> ELSE <<>>
Valid(ds, s, x) ==
    /\ x # NAN
    /\ LET l == Limit(ds, s, TRUE)  IN l # <<>> => x >= l[1] \div 1000
    /\ LET h == Limit(ds, s, FALSE) IN h # <<>> => x <= h[1] \div 1000
    /\ RawFill(ds, s) # x
\* the status values of one slice, and whether they are acceptable
Accept(r, sd) ==
    LET ok == {sd[i] : i \in {j \in 1..Len(sd) : Valid(r.ds, r.status, sd[j])}}
    IN TLCEval([i \in 1..Len(sd) |->
        IF r.by = "values" THEN sd[i] \in Range(r.vals)
        ELSE /\ sd[i] \in ok
             /\ CASE r.use = "all" -> TRUE
                  [] r.use = "max" -> sd[i] <= r.arg
                  [] r.use = "min" -> sd[i] >= r.arg
                  [] r.use = "highest" -> sd[i] = SetMax(ok)
                  [] r.use = "lowest" -> sd[i] = SetMin(ok)])
SliceAt(ds, v, d, p) == LET n == Prod(Lens(ds, v)) \div (IF HasUnlim(ds, v) THEN ds.dims[CHOOSE u \in UnlimDims(ds) : TRUE].len ELSE 1)
                        IN SubSeq(d, IF HasUnlim(ds, v) THEN p * n + 1 ELSE 1, IF HasUnlim(ds, v) THEN (p + 1) * n ELSE Len(d))
\* data of v under the rules; rules: variable -> rule
RECURSIVE Checked(_, _, _)
Checked(ds, rules, v) ==
    IF v \notin DOMAIN rules THEN ds.vars[v].d
    ELSE LET r  == rules[v]
             sd == TLCEval(IF r.ext = 1 THEN r.ds.vars[r.status].d ELSE IF r.status = v THEN ds.vars[v].d ELSE Checked(ds, rules, r.status))
             T  == IF HasUnlim(ds, v) THEN ds.dims[CHOOSE u \in UnlimDims(ds) : TRUE].len ELSE 1
             one(p) == LET x == TLCEval(SliceAt(ds, v, ds.vars[v].d, p))
                           a == TLCEval(Accept(r, SliceAt(r.ds, r.status, sd, p)))
                       IN [i \in 1..Len(x) |-> IF a[((i - 1) % Len(a)) + 1] THEN x[i] ELSE r.fill]
         IN TLCEval(ConcatAll([p \in 1..T |-> one(p - 1)]))

\* c.auto: automatic rules from flag_values; c.cfg: configured rules, which win
AutoRules(ds, c) ==
    LET pairs == {<<v, s>> \in (DOMAIN ds.vars) \X (DOMAIN ds.vars) :
                    /\ HasAttr(ds, s, "flag_values") /\ HasAttr(ds, v, "standard_name")
                    /\ HasAttr(ds, s, "standard_name") /\ Attr(ds, s, "standard_name").s = Attr(ds, v, "standard_name").s \o " status_flag"}
        fv(s) == LET m == Attr(ds, s, "flag_values").m IN [i \in 1..Len(m) |-> m[i] \div 1000]
        vals(s) == CASE c.auto = "all" -> fv(s) [] c.auto = "highest" -> <<fv(s)[Len(fv(s))]>> [] c.auto = "lowest" -> <<fv(s)[1]>>
                     [] OTHER -> Dotted(c.autovals, <<>>)
    IN IF c.auto = "" THEN EmptyFn
       ELSE TLCEval([v \in {p[1] : p \in pairs} |->
            LET s == (CHOOSE p \in pairs : p[1] = v)[2]
            IN [status |-> s, ds |-> ds, ext |-> 0, by |-> "values", vals |-> vals(s), fill |-> RawFill(ds, v)]])
RuleOk(ds, S, e) ==
    /\ e.status # ""
    /\ DottedOk(e.vals, 0)
    /\ e.vals # <<>> \/ e.use # ""
    /\ e.fill = <<>> => e.var \in DOMAIN ds.vars
    /\ e.var \in DOMAIN ds.vars =>
       LET sds == IF e.src = "" THEN ds ELSE S[e.src]
       IN e.status \in DOMAIN sds.vars =>
          LET a == ds.vars[e.var].sh  b == sds.vars[e.status].sh
          IN a = b \/ (Len(b) <= Len(a) /\ \A k \in 1..Len(b) : ds.dims[a[k]].len = sds.dims[b[k]].len)
CfgRules(ds, S, c) ==
    TLCEval([v \in {c.cfg[k].var : k \in 1..Len(c.cfg)} \cap DOMAIN ds.vars |->
        LET e == c.cfg[CHOOSE k \in 1..Len(c.cfg) : c.cfg[k].var = v]
            r == [status |-> e.status, ds |-> IF e.src = "" THEN ds ELSE S[e.src], ext |-> IF e.src = "" THEN 0 ELSE 1,
                  by |-> IF e.vals = <<>> THEN "use" ELSE "values", vals |-> Dotted(e.vals, <<>>), use |-> e.use, arg |-> e.arg,
                  fill |-> IF e.fill = <<>> THEN RawFill(ds, v) ELSE e.fill[1]]
        IN r])
Quality(S, ds, c) ==
    IF c.auto = "nonsense" \/ \E k \in 1..Len(c.cfg) : ~RuleOk(ds, S, c.cfg[k]) THEN [st |-> "err", ds |-> ds]
    ELSE LET rules == Over(AutoRules(ds, c), CfgRules(ds, S, c))
             RECURSIVE bad(_)
             bad(v) == IF v \notin DOMAIN rules THEN FALSE
                       ELSE LET r == rules[v]
                            IN \/ r.status \notin DOMAIN r.ds.vars
                               \/ (r.by = "use" /\ r.use \notin {"all", "min", "max", "highest", "lowest"})
                               \/ (r.ext = 0 /\ r.status # v /\ bad(r.status))
         IN [st |-> "ok", ds |-> [ds EXCEPT !.vars = TLCEval([v \in DOMAIN ds.vars |->
                IF v \notin DOMAIN rules THEN ds.vars[v]
                ELSE IF bad(v) THEN Put(ds.vars[v], "bad", 1)
                ELSE Put(ds.vars[v], "d", TLCEval(Checked(ds, rules, v)))])]]
=============================================================================
