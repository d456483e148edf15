----------------------------- MODULE FxVertical -----------------------------
(* Vertical coordinates and interpolation to other vertical levels.         *)
(* A vertical coordinate vt describes dimension vt.z:                       *)
(*   vt.kind   p, height, altitude, depth   the axis holds the levels       *)
(*             sigma      ptop + sigma * (ps - ptop)                        *)
(*             ap, a      ap + b * ps,  a * p0 + b * ps                     *)
(*             hh         a + b * orography                                 *)
(*             s1, s2     ocean s-coordinates                               *)
(*   vt.t      the variables the terms are taken from                       *)
(* Levels are integers, in hPa or m.                                        *)
EXTENDS FxConvert

\* coordinates: a function from dimension names to positions
ValAt(ds, v, co) ==
    LET sh == ds.vars[v].sh  L == Lens(ds, v)
        O[k \in 0..Len(sh)] == IF k = 0 THEN 0 ELSE O[k-1] + Get(co, sh[k], 0) * Stride(L, k)
    IN ds.vars[v].d[O[Len(sh)] + 1]
CoordsOf(ds, sh, L, o) == [n \in Range(sh) |-> Coord(L, o, IndexOf(sh, n))]
\* value of a term in unit u, in thousandths
Term(ds, v, u, co) ==
    LET m == PhysM(ds, v, ValAt(ds, v, co)) IN
    IF m = NAN \/ u = "" THEN m ELSE InUnit(m, UnitConv(UnitsOf(ds, v), u))
\* product of thousandths; one factor counts in quarters
Times(a, b) == IF b % 250 = 0 THEN RoundDiv(a * (b \div 250), 4) ELSE RoundDiv((a \div 250) * b, 4)
Whole(m) == IF m = NAN THEN NAN ELSE IF m % 1000 = 0 THEN m \div 1000 ELSE FRAC
LevelUnit(type) == IF type = "pressure" THEN "hPa" ELSE "m"
\* lifted arithmetic
PlusM(a, b) == IF a = NAN \/ b = NAN THEN NAN ELSE a + b
Mul(a, b) == IF a = NAN \/ b = NAN THEN NAN ELSE Times(a, b)
Neg(a) == IF a = NAN THEN NAN ELSE -a

Dims(ds, v) == Range(ds.vars[v].sh)
\* the formula applies only where its terms vary along the variable's own dimensions
TermsFit(ds, vt, D) == \A t \in DOMAIN vt.t : \A n \in Dims(ds, vt.t[t]) : ds.dims[n].len = 1 \/ n \in D
HasVT(ds, vt, D) == vt.kind # "none" /\ (vt.kind \in {"sigma", "ap", "a", "hh", "s1", "s2"} => TermsFit(ds, vt, D))
\* a field holding the levels themselves, on the same coordinates
Direct(ds, D, sn) == {w \in DOMAIN ds.vars : HasAttr(ds, w, "standard_name") /\ Attr(ds, w, "standard_name").s = sn /\ Dims(ds, w) = D /\ w \notin DOMAIN ds.dims}
Topo(ds) == {w \in DOMAIN ds.vars : HasAttr(ds, w, "standard_name") /\ Attr(ds, w, "standard_name").s = "surface_altitude"}

PressureKinds == {"p", "sigma", "ap", "a"}
\* how the levels of type are found for variable v: "" if they cannot be
Way(ds, vt, D, type) ==
    CASE ~HasVT(ds, vt, D) -> ""
      [] type = "pressure" -> IF vt.kind \notin PressureKinds \cup {"height", "altitude", "depth", "hh", "s1", "s2"} THEN ""
                              ELSE IF Direct(ds, D, "air_pressure") # {} THEN "airp"
                              ELSE IF vt.kind \in PressureKinds THEN "own" ELSE ""
      [] type = "altitude" -> IF vt.kind \in {"altitude", "hh"} THEN "own"
                              ELSE IF vt.kind = "height" THEN (IF Topo(ds) = {} THEN "" ELSE "plus")
                              ELSE IF vt.kind \in PressureKinds /\ Direct(ds, D, "geopotential_height") # {} THEN "gh" ELSE ""
      [] type = "height"   -> IF vt.kind = "height" THEN "own"
                              ELSE IF Topo(ds) = {} THEN ""
                              ELSE IF vt.kind \in {"altitude", "hh"} THEN "minus"
                              ELSE IF vt.kind \in PressureKinds /\ Direct(ds, D, "geopotential_height") # {} THEN "ghminus" ELSE ""
      [] type = "depth"    -> IF vt.kind \in {"depth", "s1", "s2"} THEN "own" ELSE ""
      [] OTHER -> ""
Own(ds, vt, u, co) ==
    LET T(t, un) == Term(ds, vt.t[t], un, co) IN
    CASE vt.kind \in {"p", "height", "altitude", "depth"} -> Term(ds, vt.z, u, co)
      [] vt.kind = "sigma" -> LET pt == T("ptop", "hPa") IN PlusM(pt, Mul(T("sigma", ""), PlusM(T("ps", "hPa"), Neg(pt))))
      [] vt.kind = "ap"    -> PlusM(T("ap", "hPa"), Mul(T("b", ""), T("ps", "hPa")))
      [] vt.kind = "a"     -> PlusM(Mul(T("a", ""), T("p0", "hPa")), Mul(T("b", ""), T("ps", "hPa")))
      [] vt.kind = "hh"    -> PlusM(T("a", "m"), Mul(T("b", ""), T("orog", "m")))
      [] vt.kind = "s1"    -> LET h == T("depth", "m")  hc == T("depth_c", "m")
                              IN Neg(PlusM(Mul(hc, T("s", "")), Mul(PlusM(h, Neg(hc)), T("C", ""))))
      [] OTHER             -> LET h == T("depth", "m")  hc == T("depth_c", "m")
                                  n == PlusM(Mul(hc, T("s", "")), Mul(h, T("C", "")))
                              \* h / (h + hc) * n
                              IN IF h = NAN \/ n = NAN THEN NAN ELSE Neg(RoundDiv(n * (h \div 1000), (h + hc) \div 1000))
Level(ds, vt, D, type, co) ==
    LET u == LevelUnit(type)
        w == Way(ds, vt, D, type)
        one(S) == CHOOSE x \in S : TRUE
        topo == Term(ds, one(Topo(ds)), "m", co)
    IN Whole(CASE w = "own"     -> Own(ds, vt, u, co)
               [] w = "airp"    -> Term(ds, one(Direct(ds, D, "air_pressure")), "hPa", co)
               [] w = "gh"      -> Term(ds, one(Direct(ds, D, "geopotential_height")), "m", co)
               [] w = "plus"    -> PlusM(Own(ds, vt, u, co), topo)
               [] w = "minus"   -> PlusM(Own(ds, vt, u, co), Neg(topo))
               [] OTHER         -> PlusM(Term(ds, one(Direct(ds, D, "geopotential_height")), "m", co), Neg(topo)))

\* ------------------------------------------------------------ interpolation
\* the two levels the value at x is taken from: around x, or the closest ones; <<0, 0>> if there are none
Pair(lev, x) ==
    LET N == {k \in 1..Len(lev) : lev[k] # NAN}
        lo == {k \in N : lev[k] <= x}
        hi == {k \in N : lev[k] > x}
        best(S, P) == SetMin({k \in S : Abs(lev[k] - x) = SetMin({Abs(lev[j] - x) : j \in S})})
    IN IF x = NAN THEN <<0, 0>>
       ELSE IF lo # {} /\ hi # {} THEN <<best(lo, 0), best(hi, 0)>>
       ELSE IF N = {} THEN <<0, 0>>
       ELSE LET a == best(N, 0)  R == {k \in N : lev[k] # lev[a]} IN IF R = {} THEN <<0, 0>> ELSE <<a, best(R, 0)>>
Exps == [e \in 0..12 |-> 2 ^ e]
IsPow2(p) == \E e \in DOMAIN Exps : Exps[e] = p
Log2(p) == CHOOSE e \in DOMAIN Exps : Exps[e] = p
\* A at level a, B at level b; a value out of N/D
Lin(A, B, n, d) == IF n = 0 THEN A ELSE IF n = d THEN B ELSE IF A = NAN \/ B = NAN THEN NAN
                   ELSE LET s == IF d < 0 THEN -1 ELSE 1 IN RoundDiv(s * (A * d + (B - A) * n), s * d)
ValueAt(method, A, B, a, b, x) ==
    LET n == x - a  d == b - a
        ge(p) == IF d > 0 THEN n >= p * d ELSE n <= p * d      \* n/d >= p
        le(p) == IF d > 0 THEN n <= p * d ELSE n >= p * d
    IN CASE method = "linear" -> Lin(A, B, n, d)
         [] method = "linear_weak_extra" -> IF ge(-1) /\ le(2) THEN Lin(A, B, n, d) ELSE NAN
         [] method = "linear_no_extra" -> IF ge(0) /\ le(1) THEN Lin(A, B, n, d) ELSE NAN
         [] method = "linear_const_extra" -> IF ge(1) THEN B ELSE IF le(0) THEN A ELSE Lin(A, B, n, d)
         [] method = "nearestneighbor" -> IF Abs(n) <= Abs(x - b) THEN A ELSE B
         [] OTHER -> \* logarithmic; known where the levels are powers of two, or the values agree
                     IF a <= 0 \/ b <= 0 \/ x <= 0 THEN NAN
                     ELSE IF n = 0 \/ A = B THEN A
                     ELSE IF n = d THEN B
                     ELSE IF A = NAN \/ B = NAN THEN NAN
                     ELSE IF ~(IsPow2(a) /\ IsPow2(b) /\ IsPow2(x)) THEN FRAC
                     ELSE Lin(A, B, Log2(x) - Log2(a), Log2(b) - Log2(a))
Num(ds, v, x) == IF IsMissing(ds, v, x) THEN NAN ELSE x
Clamp(ds, v, x) ==
    LET lo == IF HasAttr(ds, v, "valid_min") THEN Attr(ds, v, "valid_min").m[1] \div 1000 ELSE x
        hi == IF HasAttr(ds, v, "valid_max") THEN Attr(ds, v, "valid_max").m[1] \div 1000 ELSE x
    IN IF x = NAN THEN RawFill(ds, v) ELSE IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* variable v of ds along vt.z brought to nlev levels out(co); zo: the new dimension
ToLevels(ds, vt, v, type, method, zo, nlev, vto, Do, levels) ==
    LET sh  == ds.vars[v].sh
        shO == [k \in 1..Len(sh) |-> IF sh[k] = vt.z THEN zo ELSE sh[k]]
        LO  == [k \in 1..Len(sh) |-> IF sh[k] = vt.z THEN nlev ELSE ds.dims[sh[k]].len]
        nz  == ds.dims[vt.z].len
        one(o) ==
            LET co   == CoordsOf(ds, shO, LO, o)
                ci   == TLCEval([k \in 1..nz |-> Put(co, vt.z, k - 1)])
                lev  == TLCEval([k \in 1..nz |-> Level(ds, vt, Dims(ds, v), type, ci[k])])
                x    == IF DOMAIN vto = {} THEN levels[co[zo] + 1] ELSE Level(ds, vto, Do, type, co)
                p    == Pair(lev, x)
                valid == ~((Has(vt, "eta") \/ Has(vto, "eta")) /\ x < 0)
            IN IF p[1] = 0 \/ ~valid THEN Clamp(ds, v, NAN)
               ELSE Clamp(ds, v, ValueAt(method, Num(ds, v, ValAt(ds, v, ci[p[1]])), Num(ds, v, ValAt(ds, v, ci[p[2]])), lev[p[1]], lev[p[2]], x))
    IN [ds.vars[v] EXCEPT !.sh = shO, !.d = TLCEval([o \in 1..Prod(LO) |-> one(o - 1)])]

AxisAttrs(type) ==
    CASE type = "pressure" -> ("units" :> [t |-> "string", s |-> "hPa"])
      [] type = "height"   -> [units |-> [t |-> "string", s |-> "m"], positive |-> [t |-> "string", s |-> "up"], long_name |-> [t |-> "string", s |-> "height above ground"]]
      [] type = "altitude" -> [units |-> [t |-> "string", s |-> "m"], positive |-> [t |-> "string", s |-> "up"], standard_name |-> [t |-> "string", s |-> "height_above_msl"]]
      [] OTHER             -> [units |-> [t |-> "string", s |-> "m"], positive |-> [t |-> "string", s |-> "down"]]
\* variables on the grid and on vt.z
OnAxis(ds, vt, G) == {v \in DOMAIN ds.vars : v \notin DOMAIN ds.dims /\ HasDim(ds, v, vt.z) /\ \A g \in G : HasDim(ds, v, g)}
Changing(ds, vt, G) == IF ds.dims[vt.z].len > 1 THEN OnAxis(ds, vt, G) ELSE {}
\* c.vts: the vertical coordinates of the dataset; c.mode: fixed (c.levels), axis or template (c.to indexes vts)
ToVertical(ds, c, type, method) ==
    LET G == IF Has(c, "gx") THEN {c.gx, c.gy} ELSE {"x", "y"}
        own(v) == CHOOSE k \in 1..Len(c.vts) : HasDim(ds, v, c.vts[k].z)
        vto  == IF c.mode = "fixed" THEN EmptyFn ELSE c.vts[c.to]
        zo   == IF c.mode = "fixed" THEN c.name ELSE vto.z
        n    == IF c.mode = "fixed" THEN Len(c.levels) ELSE ds.dims[zo].len
        todo == {k \in 1..Len(c.vts) : c.mode = "fixed" \/ k # c.to}
        ch   == UNION {Changing(ds, c.vts[k], G) : k \in todo}
        gone == IF c.mode = "template" THEN {} ELSE {c.vts[k].z : k \in {j \in todo : Changing(ds, c.vts[j], G) # {}}}
        new(v) == LET vt == c.vts[own(v)]
                      Do == IF c.mode = "template" THEN Dims(ds, c.tvar) ELSE (Dims(ds, v) \ {vt.z}) \cup {zo}
                      ok == Way(ds, vt, Dims(ds, v), type) # "" /\ (c.mode = "fixed" \/ Way(ds, vto, Do, type) # "")
                  IN IF ok THEN ToLevels(ds, vt, v, type, method, zo, n, vto, Do, IF c.mode = "fixed" THEN c.levels ELSE <<>>)
                     ELSE Put([ds.vars[v] EXCEPT !.sh = [k \in 1..Len(@) |-> IF @[k] = vt.z THEN zo ELSE @[k]]], "bad", 1)
        vars == TLCEval([v \in DOMAIN ds.vars \ gone |-> IF v \in ch THEN new(v) ELSE ds.vars[v]])
        ax   == [t |-> "double", sh |-> <<zo>>, a |-> AxisAttrs(type), d |-> c.levels]
    IN IF c.mode = "fixed" THEN [ds EXCEPT !.dims = Put(@, zo, [len |-> n, u |-> 0]), !.vars = Put(vars, zo, ax)]
       ELSE [ds EXCEPT !.vars = vars]
=============================================================================
