------------------------------ MODULE FxConvert -----------------------------
(* Packed values, physical values, units and type conversion.               *)
(* Physical values are counted in thousandths.                              *)
EXTENDS FxDataset

IntTypes == {"char", "uchar", "short", "ushort", "int", "uint", "int64", "uint64"}
NONE == 1999999999      \* no value of the data can equal this
DefaultFill(t) == CASE t = "char" -> -127 [] t = "uchar" -> 255 [] t = "short" -> -32767 [] t = "ushort" -> 65535 [] OTHER -> NONE

Milli(ds, v, n, dflt) == IF HasAttr(ds, v, n) /\ Attr(ds, v, n).t # "string" THEN Attr(ds, v, n).m[1] ELSE dflt
ScaleM(ds, v)  == Milli(ds, v, "scale_factor", 1000)
OffsetM(ds, v) == Milli(ds, v, "add_offset", 0)
FillAttr(ds, v) == IF HasAttr(ds, v, "_FillValue") THEN "_FillValue" ELSE IF HasAttr(ds, v, "missing_value") THEN "missing_value" ELSE ""
\* a fill value of another type than the variable's makes the variable unusable
FillOk(ds, v) == FillAttr(ds, v) = "" \/ Attr(ds, v, FillAttr(ds, v)).t = ds.vars[v].t
Fill(ds, v) ==
    IF FillAttr(ds, v) = "" THEN DefaultFill(ds.vars[v].t)
    ELSE LET m == Attr(ds, v, FillAttr(ds, v)).m[1] IN IF m \in {NAN, INF, BIG, FRAC} THEN NONE ELSE TruncDiv(m, 1000)
IsMissing(ds, v, x) == x = NAN \/ x = Fill(ds, v) \/ (x = BIG /\ FillAttr(ds, v) = "")
UnitsOf(ds, v) == IF HasAttr(ds, v, "units") THEN Attr(ds, v, "units").s ELSE ""

\* linear unit conversions: <<numerator, denominator, offset in thousandths>>
UnitTable ==
    ("m|cm" :> <<100, 1, 0>>) @@ ("cm|m" :> <<1, 100, 0>>) @@ ("km|m" :> <<1000, 1, 0>>) @@ ("m|km" :> <<1, 1000, 0>>) @@ ("km|cm" :> <<100000, 1, 0>>) @@
    ("K|degC" :> <<1, 1, -273150>>) @@ ("degC|K" :> <<1, 1, 273150>>) @@
    ("K|degF" :> <<9, 5, -459670>>) @@ ("hPa|Pa" :> <<100, 1, 0>>) @@ ("Pa|hPa" :> <<1, 100, 0>>) @@
    ("hours|seconds" :> <<3600, 1, 0>>) @@ ("days|hours" :> <<24, 1, 0>>) @@ ("1|percent" :> <<100, 1, 0>>) @@
    ("lg(re 1 m)|m" :> <<0, 10, 0>>) @@ ("lg(re 1 m)|km" :> <<0, 10, -3>>) @@ ("lg(re 1 km)|m" :> <<0, 10, 3>>)      \* not linear: powers of ten
ConvertibleU(u, w) == u = w \/ (u \o "|" \o w) \in DOMAIN UnitTable
UnitConv(u, w) == IF u = w THEN <<1, 1, 0>> ELSE UnitTable[u \o "|" \o w]

\* physical value, in thousandths, of the raw value x of variable v
PhysM(ds, v, x) == IF IsMissing(ds, v, x) THEN NAN ELSE IF x = BIG THEN BIG ELSE x * ScaleM(ds, v) + OffsetM(ds, v)
PowTen[n \in 0..9] == IF n = 0 THEN 1 ELSE 10 * PowTen[n - 1]
InUnit(m, k) == IF m = NAN THEN NAN
                ELSE IF k[1] = 0 THEN (IF m % 1000 = 0 /\ m \div 1000 + k[3] \in -3..6 THEN PowTen[m \div 1000 + k[3] + 3]
                                    ELSE IF m % 1000 = 0 /\ m \div 1000 + k[3] < -3 THEN 0 ELSE FRAC)
                ELSE IF Abs(m) > 1900000000 \div k[1] THEN BIG
                ELSE RoundDiv(m * k[1], k[2]) + k[3]
PhysSeq(ds, v, d) == TLCEval([i \in 1..Len(d) |-> PhysM(ds, v, d[i])])

RawFill(ds, v) ==
    IF FillAttr(ds, v) = "" THEN (IF DefaultFill(ds.vars[v].t) = NONE THEN BIG ELSE DefaultFill(ds.vars[v].t))
    ELSE LET m == Attr(ds, v, FillAttr(ds, v)).m[1] IN IF m \in {NAN, INF, BIG} THEN m ELSE TruncDiv(m, 1000)
\* the raw value of variable w of ds2 with the physical value that x has as raw value of v of ds1
Repack(x, ds1, v, ds2, w) ==
    IF IsMissing(ds1, v, x) THEN RawFill(ds2, w)
    ELSE IF x = BIG THEN BIG
    ELSE LET p0 == x * ScaleM(ds1, v) + OffsetM(ds1, v) - OffsetM(ds2, w)
             q  == Abs(ScaleM(ds2, w))
             p  == IF ScaleM(ds2, w) < 0 THEN -p0 ELSE p0
         IN IF ds2.vars[w].t \in IntTypes THEN RoundDiv(p, q)
            ELSE IF p % q = 0 THEN p \div q ELSE FRAC

\* storing physical values again: c.d raw values of type c.t with fill, scale and offset
\* (scales in eighths, offsets in eighths) to type c.nt with another fill, scale and offset
SamePacking(c) == c.fill = c.nfill /\ c.sf = c.nsf /\ c.ao = c.nao
ConvertOne(c, x) ==
    IF x = NAN /\ SamePacking(c) /\ c.nt \notin IntTypes THEN NAN   \* undefined either way
    ELSE IF x = NAN \/ x = c.fill THEN c.nfill
    ELSE LET num == x * c.sf + c.ao - c.nao             \* eighths of the physical value, less the new offset
             q   == Abs(c.nsf)
             p   == IF c.nsf < 0 THEN -num ELSE num
         IN IF c.nt \in IntTypes THEN RoundDiv(p, q)      \* nearest, halves away from zero
            ELSE IF (p % q) = 0 THEN p \div q ELSE FRAC
Convert(c) == [st |-> "ok", t |-> c.nt, d |-> TLCEval([i \in 1..Len(c.d) |-> ConvertOne(c, c.d[i])])]
=============================================================================
