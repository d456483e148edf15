---------------------------- MODULE FxCalendar ------------------------------
(* Dates and times.  A date is <<y, mo, d, h, mi, s, ms>>; an instant or a  *)
(* duration is <<days, milliseconds of the day>>, instants counted from     *)
(* 2000-01-01 00:00.  The calendar is the standard one: Julian up to        *)
(* 1582-10-04, Gregorian from 1582-10-15.                                   *)
EXTENDS FxTime

DayMs == 86400000
NormMs(d, ms) == <<d + ms \div DayMs, ms % DayMs>>
PlusMs(a, b) == NormMs(a[1] + b[1], a[2] + b[2])
MinusMs(a, b) == NormMs(a[1] - b[1], a[2] - b[2])
BeforeI(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

IsGregorian(y, m, d) == y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d >= 15)))
\* Julian day number
DayNumber(y, m, d) ==
    LET a  == IF m <= 2 THEN 1 ELSE 0
        yy == y + 4800 - a
        mm == m + 12 * a - 3
        b  == d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4
    IN IF IsGregorian(y, m, d) THEN b - yy \div 100 + yy \div 400 - 32045 ELSE b - 32083
Day2000 == 2451545
DaysOf(y, m, d) == DayNumber(y, m, d) - Day2000
DaysIn(y, m) == IF m = 2 THEN IF (y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)) \/ (y <= 1582 /\ y % 4 = 0) THEN 29 ELSE 28
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Instant(t) == NormMs(DaysOf(t[1], t[2], t[3]), ((t[4] * 60 + t[5]) * 60 + t[6]) * 1000 + t[7])
\* the date of a day number: the year and month which contain it
DateOfDay(n) ==
    LET y0 == 2000 + (n * 4) \div 1461
        y  == CHOOSE k \in (y0 - 3)..(y0 + 3) : DaysOf(k, 1, 1) <= n /\ n < DaysOf(k + 1, 1, 1)
        m  == CHOOSE k \in 1..12 : DaysOf(y, k, 1) <= n /\ (k = 12 \/ n < DaysOf(y, IF k = 12 THEN 12 ELSE k + 1, 1))
        d  == CHOOSE k \in 1..31 : DaysOf(y, m, k) = n /\ ~(y = 1582 /\ m = 10 /\ k \in 5..14)
    IN <<y, m, d>>
DateOf(i) ==
    LET s == i[2] \div 1000
    IN DateOfDay(i[1]) \o <<s \div 3600, (s \div 60) % 60, s % 60, i[2] % 1000>>

\* units of time: length in milliseconds and reference date, the latter with an offset from UTC in minutes
UnitMs == [milliseconds |-> 1, seconds |-> 1000, minutes |-> 60000, hours |-> 3600000, days |-> DayMs]
UnitRef(u) == MinusMs(Instant(u.ref), NormMs(0, u.tz * 60000))
\* n/den units; den divides the length of the unit
DurationOf(u, n, den) ==
    LET k == den * (DayMs \div UnitMs[u.per])
    IN <<n \div k, (n % k) * (UnitMs[u.per] \div den)>>
UnitTime(u, n, den) == PlusMs(UnitRef(u), DurationOf(u, n, den))

\* ------------------------------------------------------------------- text
Pad(n, w) == LET s == ToString(n) IN
    (IF n < 10 /\ w > 1 THEN "0" ELSE "") \o (IF n < 100 /\ w > 2 THEN "0" ELSE "") \o (IF n < 1000 /\ w > 3 THEN "0" ELSE "") \o s
TextOf(t) == ToString(t[1]) \o "-" \o Pad(t[2], 2) \o "-" \o Pad(t[3], 2) \o "T" \o Pad(t[4], 2) \o ":" \o Pad(t[5], 2) \o ":" \o Pad(t[6], 2)
             \o (IF t[7] > 0 THEN "." \o Pad(t[7], 3) ELSE "")
CompactOf(t) == ToString(t[1]) \o Pad(t[2], 2) \o Pad(t[3], 2) \o "T" \o Pad(t[4], 2) \o Pad(t[5], 2) \o Pad(t[6], 2)
WholeSec(t) == [t EXCEPT ![7] = 0]

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE NumberOf(_, _)
NumberOf(ch, acc) == IF ch = <<>> THEN acc ELSE NumberOf(Tail(ch), acc * 10 + DigitVal[Head(ch)])
IsNumber(ch) == ch # <<>> /\ \A i \in 1..Len(ch) : ch[i] \in Digits
RECURSIVE SplitAt(_, _, _)
SplitAt(ch, sep, acc) == IF ch = <<>> THEN <<acc>>
                         ELSE IF Head(ch) = sep THEN <<acc>> \o SplitAt(Tail(ch), sep, <<>>)
                         ELSE SplitAt(Tail(ch), sep, Append(acc, Head(ch)))
RECURSIVE TrimL(_)
TrimL(ch) == IF ch # <<>> /\ Head(ch) = " " THEN TrimL(Tail(ch)) ELSE ch
RECURSIVE TrimR(_)
TrimR(ch) == IF ch # <<>> /\ ch[Len(ch)] = " " THEN TrimR(SubSeq(ch, 1, Len(ch) - 1)) ELSE ch
\* thousandths of a fraction, to the nearest
Thousandths(ch) == LET c == ch \o <<"0", "0", "0", "0">> IN NumberOf(SubSeq(c, 1, 3), 0) + (IF DigitVal[c[4]] >= 5 THEN 1 ELSE 0)
AllNumbers(p) == \A i \in 1..Len(p) : IsNumber(p[i])
NotTime == <<>>
ParseTime(ch0) ==
    LET ch == TrimR(TrimL(ch0))
        byT == SplitAt(ch, "T", <<>>)
        dt == IF Len(byT) = 1 THEN SplitAt(ch, " ", <<>>) ELSE byT
        date == SplitAt(dt[1], "-", <<>>)
        time == IF Len(dt) = 1 THEN <<<<"0">>, <<"0">>, <<"0">>>> ELSE SplitAt(dt[2], ":", <<>>)
        sec == IF Len(time) = 3 THEN SplitAt(time[3], ".", <<>>) ELSE <<<<"0">>>>
    IN IF Len(dt) > 2 \/ Len(date) # 3 \/ Len(time) \notin {2, 3} \/ Len(sec) > 2 THEN NotTime
       ELSE IF ~AllNumbers(date) \/ ~IsNumber(time[1]) \/ ~IsNumber(time[2]) \/ ~AllNumbers(sec) THEN NotTime
       ELSE <<NumberOf(date[1], 0), NumberOf(date[2], 0), NumberOf(date[3], 0), NumberOf(time[1], 0), NumberOf(time[2], 0),
              NumberOf(sec[1], 0), IF Len(sec) = 2 THEN Thousandths(sec[2]) ELSE 0>>

\* strftime of a sequence of pieces
Piece(p, t) ==
    CASE p = "%Y" -> ToString(t[1]) [] p = "%m" -> Pad(t[2], 2) [] p = "%d" -> Pad(t[3], 2)
      [] p = "%H" -> Pad(t[4], 2) [] p = "%M" -> Pad(t[5], 2) [] p = "%S" -> Pad(t[6], 2) [] OTHER -> p
RECURSIVE Strftime(_, _)
Strftime(f, t) == IF f = <<>> THEN "" ELSE Piece(Head(f), t) \o Strftime(Tail(f), t)
IsoFormat == <<"%Y", "-", "%m", "-", "%d", " ", "%H", ":", "%M", ":", "%S">>
\* a text with templates: each piece is literal text [k |-> "s"] or the name of a time, a format and an offset in seconds
RECURSIVE Filled(_, _)
Filled(parts, times) ==
    IF parts = <<>> THEN ""
    ELSE LET p == Head(parts) IN
         (IF p.k = "s" THEN p.s
          ELSE Strftime(IF p.f = <<>> THEN IsoFormat ELSE p.f, DateOf(PlusMs(Instant(times[p.n]), NormMs(p.off \div 86400, (p.off % 86400) * 1000)))))
         \o Filled(Tail(parts), times)

Rank(a) == IF a.k = "min" THEN 0 ELSE IF a.k = "max" THEN 2 ELSE 1
Sign(a, b) == IF Rank(a) # Rank(b) THEN Rank(a) - Rank(b)
              ELSE IF Rank(a) # 1 \/ a.t = b.t THEN 0
              ELSE IF BeforeI(Instant(a.t), Instant(b.t)) THEN -1 ELSE 1
\* the one time in variables which are forecast reference times
RefVars(ds) == {v \in DOMAIN ds.vars : "standard_name" \in DOMAIN ds.vars[v].a /\ ds.vars[v].a["standard_name"].t = "string"
                                          /\ ds.vars[v].a["standard_name"].s = "forecast_reference_time"}
RefTimes(ds, units) == UNION {{UnitTime(units[UnitsOf(ds, v)], ds.vars[v].d[i], 1) : i \in 1..Len(ds.vars[v].d)} : v \in RefVars(ds)}
CalendarObs(S, c) ==
    CASE c.f = "unit" ->
            LET i == UnitTime(c.unit, c.n, c.den)  d == DurationOf(c.unit, c.n, c.den)
            IN [st |-> "ok", t |-> DateOf(i), e |-> MinusMs(i, <<DaysOf(1970, 1, 1), 0>>), b |-> d, r |-> d]
      [] c.f = "time" ->
            [st |-> "ok", u |-> MinusMs(Instant(c.t), UnitRef(c.unit)), iso |-> TextOf(c.t), iso2 |-> TextOf(c.t), compact |-> CompactOf(c.t), parsed |-> c.t]
            @@ (IF c.tp THEN [e |-> MinusMs(Instant(WholeSec(c.t)), <<DaysOf(1970, 1, 1), 0>>), tp |-> WholeSec(c.t), tpiso |-> TextOf(WholeSec(c.t)), tpcompact |-> CompactOf(c.t),
                              tpparsed |-> WholeSec(c.t), tps |-> WholeSec(c.t)] ELSE EmptyFn)
      [] c.f = "parse" -> [st |-> "ok", t |-> ParseTime(c.ch)]
      [] c.f = "cmp" -> LET s == Sign(c.a, c.b) IN [st |-> "ok", lt |-> s < 0, le |-> s <= 0, eq |-> s = 0, ne |-> s # 0, ge |-> s >= 0, gt |-> s > 0, enc |-> TRUE]
      [] c.f = "special" -> [st |-> "ok", v |-> IF c.a.k = "min" THEN "lowest" ELSE IF c.a.k = "max" THEN "largest" ELSE "given", inv |-> TRUE]
      [] c.f = "bad" -> [st |-> "ok", time |-> c.time, made |-> c.time]
      [] c.f = "text" -> [st |-> "ok", s |-> Filled(c.parts, c.times)]
      [] c.f = "ref" -> LET ds == S[c.id]  T == RefTimes(ds, c.units)
                        IN IF T = {} /\ Has(c, "wrf") THEN [st |-> "ok", t |-> c.wrf]
                           ELSE IF Cardinality(T) # 1 THEN Err ELSE [st |-> "ok", t |-> DateOf(CHOOSE i \in T : TRUE)]
=============================================================================
