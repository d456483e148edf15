from ..gen import *
import datetime

FAMILIES = [("units", 6000, 60000), ("dates", 4000, 40000), ("texts", 2500, 20000), ("order", 2500, 20000), ("reference", 2500, 20000)]
MUST = ["cal", "src"]
ASSUMPTIONS = ["years 1 to 4095 (years before 1583 in units of time only)", "reference times are stored unpacked"]
PER = {"milliseconds": 0.001, "seconds": 1, "minutes": 60, "hours": 3600, "days": 86400}
NAMES = {"milliseconds": ["milliseconds", "ms", "msec"], "seconds": ["seconds", "second", "s", "sec"], "minutes": ["minutes", "minute", "min"],
         "hours": ["hours", "hour", "h"], "days": ["days", "day", "d"]}


def date(rng, lo=1583, hi=4095, ms=None):
    r = rng.random()
    y = rng.randint(1950, 2060) if r < 0.6 else rng.choice([1600, 1700, 1900, 2000, 2100, 2400, 1999, 2004, 1970, 1969]) if r < 0.8 else rng.randint(lo, hi)
    y = min(max(y, lo), hi)
    m = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
    last = 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else (29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28)
    d = rng.choice([1, last, rng.randint(1, last)])
    if ms is None:
        ms = rng.choice([0, 0, 1, 999, 500, rng.randint(0, 999)])
    return [y, m, d, rng.choice([0, 0, 23, rng.randint(0, 23)]), rng.choice([0, 0, 59, rng.randint(0, 59)]), rng.choice([0, 0, 59, rng.randint(0, 59)]), ms]


def unit(rng, pers=None):
    """a unit of time and its text"""
    per = rng.choice(pers or list(PER))
    if rng.random() < 0.15:
        ref = [rng.choice([1, 4, 1500, 1582, 1582]), rng.choice([1, 10]), rng.choice([1, 4, 15]), 0, 0, 0, 0]
        if ref[0] == 1582 and ref[1] == 10 and ref[2] == 4 and rng.random() < 0.5:
            ref[3] = 23
    else:
        ref = date(rng, 1583, 2300, rng.choice([0, 0, 0, 0, 500]))
    tz = 0
    form = rng.random()
    s = "%s since %04d-%02d-%02d" % ((rng.choice(NAMES[per]),) + tuple(ref[:3]))
    if form < 0.15:
        ref[3:] = [0, 0, 0, 0]
    else:
        if form < 0.3:
            ref[5:] = [0, 0]
            s += rng.choice([" ", "T"]) + "%02d:%02d" % tuple(ref[3:5])
        else:
            s += rng.choice([" ", "T"]) + "%02d:%02d:%02d" % tuple(ref[3:6])
            if ref[6]:
                s += ".%03d" % ref[6]
        r = rng.random()
        if r < 0.2:
            tz = rng.choice([60, 120, -360, 330, -210, 720])
            s += " %s%02d:%02d" % ("-" if tz < 0 else "+", abs(tz) // 60, abs(tz) % 60)
        elif r < 0.3:
            s += rng.choice([" +00:00", " 0:00", " UTC", " Z"])
    return {"per": per, "ref": ref, "tz": tz}, s


def units(rng, drv, tier):
    for _ in range(4):
        u, s = unit(rng)
        den = rng.choice([1, 1, 1, 2, 4, 8] if u["per"] != "milliseconds" else [1])
        if u["per"] == "seconds" and rng.random() < 0.5:
            den = 1000
        lim = int(min(2 * 10**9, den * 40000 * 86400 / PER[u["per"]]))
        r = rng.random()
        n = rng.randint(-200, 2000) if r < 0.3 else rng.randint(-lim, lim)
        if u["ref"][0] < 1600:
            # up to and across the change of calendars
            day = int(den * 86400 / PER[u["per"]])
            n = rng.randint(0, int(min(2 * 10**9, day * 900000)))
            if u["ref"][0] == 1582:
                n = rng.randint(0, int(min(2 * 10**9, day * 20)))
        elif n < 0 and u["ref"][0] < 1750:
            n = -n
        if rng.random() < 0.15:
            n -= n % den
        drv.do({"op": "cal", "f": "unit", "unit": u, "text": s, "sec": PER[u["per"]], "n": n, "den": den})
    if rng.random() < 0.2:
        t = rng.random() < 0.3
        s = unit(rng)[1] if t else rng.choice(["m", "K", "degrees_north", "1", "", "meter since 2000-01-01", "bananas", "bananas since 2000-01-01", "hours", "days since"])
        if s in ("hours",):
            return
        drv.do({"op": "cal", "f": "bad", "text": s, "time": t})


def dates(rng, drv, tier):
    for _ in range(4):
        u, s = unit(rng)
        drv.do({"op": "cal", "f": "time", "t": date(rng), "unit": u, "text": s, "sec": PER[u["per"]], "tp": True})


def parse_text(rng):
    t = date(rng)
    f = lambda x: ("%02d" % x) if rng.random() < 0.9 else str(x)
    s = "%d-%s-%s" % (t[0], f(t[1]), f(t[2]))
    r = rng.random()
    if r > 0.15:
        s += rng.choice("T ") + f(t[3]) + ":" + f(t[4])
        if r > 0.3:
            s += ":" + f(t[5])
            if r > 0.5:
                s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 3, 3, 4, 5])))
                if s.split(".")[1][:4] > "9994" or s.split(".")[1][3:4] == "5":
                    s = s.split(".")[0]
    if rng.random() < 0.1:
        s = rng.choice([" ", "  "]) + s + rng.choice(["", " "])
    r = rng.random()
    if r < 0.2:
        s = rng.choice(["", " ", s[:4], s[:7], "12:30:00", "abc", "2000-01-01T12", "2000-01-01T12:00:00Z", "2000-1x-01", "2000-01-01T1a:00", "2000-01-01T00:b0",
                        "2000-01-01T00:00:0c", "2000/01/01", "20000101", "2000-01-01-01", "2000-01-01T00:00:00:00", "2000-01-01T00:00T00", "a-b-c", s + "x"])
        if s.endswith("x") and "." in s:
            s = "2000-01-01 00:00x"
    return s


FMT = ["%Y", "%m", "%d", "%H", "%M", "%S"]
LIT = ["-", ":", " ", "/", "T", "Z", ".", "at "]


def texts(rng, drv, tier):
    for _ in range(3):
        drv.do({"op": "cal", "f": "parse", "ch": list(parse_text(rng))})
    times = {"MIN_DATETIME": date(rng, 1800, 2300, 0), "MAX_DATETIME": date(rng, 1800, 2300, 0)}
    parts, text = [], ""
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.4:
            s = rng.choice(["from ", " to ", "100% ", "a,b ", "(x) ", "%MIN_DATE% ", " "])
            parts.append({"k": "s", "s": s})
            text += s
            continue
        n = rng.choice(list(times))
        f, off = [], 0
        if rng.random() < 0.8:
            for _ in range(rng.randint(1, 6)):
                f.append(rng.choice(FMT))
                if rng.random() < 0.7:
                    f.append(rng.choice(LIT))
            if rng.random() < 0.35:
                off = rng.choice([2419200, -3600, 60, 86400, -86400 * 400])
        text += "%" + n + ("(" + "".join(f) + ("," + ("+" if off > 0 and rng.random() < 0.5 else "") + str(off) if off else "") + ")" if f else "") + "%"
        parts.append({"k": "t", "n": n, "f": f, "off": off})
    drv.do({"op": "cal", "f": "text", "text": text, "parts": parts, "times": times})


def order(rng, drv, tier):
    a = date(rng)
    for _ in range(4):
        b = list(a)
        for _ in range(rng.choice([0, 1, 1, 2, 7])):
            i = rng.randrange(7)
            b[i] = date(rng)[i]
        b[2] = min(b[2], 28)
        x = {"k": "t", "t": a} if rng.random() < 0.9 else {"k": rng.choice(["min", "max"])}
        y = {"k": "t", "t": b} if rng.random() < 0.9 else {"k": rng.choice(["min", "max"])}
        if rng.random() < 0.5:
            x, y = y, x
        drv.do({"op": "cal", "f": "cmp", "a": x, "b": y})
        a = b
    if rng.random() < 0.3:
        a = rng.choice([{"k": "min"}, {"k": "max"}, {"k": "t", "t": [rng.randint(1, 3000), rng.choice([0, 13]), 1, 0, 0, 0, 0]}])
        drv.do({"op": "cal", "f": "special", "a": a, "text": unit(rng)[1]})


def reference(rng, drv, tier):
    us, vs = {}, {}
    k = rng.choice([0, 1, 1, 2, 2, 3])
    t0 = datetime.datetime(rng.randint(1960, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 6, 12, 18]))
    dims = {"r": {"len": rng.randint(1, 3), "u": 0}}
    for i in range(k):
        per = rng.choice(["hours", "minutes", "seconds", "days"])
        rf = t0 - datetime.timedelta(days=rng.randint(-30, 400), hours=rng.choice([0, 0, 6, 5]))
        if per == "days":
            rf = t0 - datetime.timedelta(days=rng.randint(-30, 400))
        s = per + rf.strftime(" since %Y-%m-%d %H:%M:%S")
        us[s] = {"per": per, "ref": [rf.year, rf.month, rf.day, rf.hour, rf.minute, rf.second, 0], "tz": 0}
        n = int((t0 - rf).total_seconds()) // int(PER[per])
        shape = rng.choice([[], [], ["r"]])
        d = [n] * (dims["r"]["len"] if shape else 1)
        if rng.random() < 0.2:
            d[rng.randrange(len(d))] += rng.choice([1, -1])
        vs["ref%d" % i] = {"t": rng.choice(["double", "int", "float"]) if abs(n) < 2**24 else rng.choice(["double", "int"]), "sh": shape, "d": d,
                           "a": {"units": satt(s), "standard_name": satt("forecast_reference_time")}}
    vs["other"] = {"t": "double", "sh": ["r"], "d": [5] * dims["r"]["len"], "a": {"units": satt("hours since 1990-01-01"), "standard_name": satt(rng.choice(["time", "forecast_reference_tim", "height"]))}}
    g = {}
    c = {"op": "cal", "f": "ref", "id": "s", "units": us}
    if rng.random() < 0.3:
        g["SIMULATION_START_DATE"] = satt(t0.strftime("%Y-%m-%d_%H:%M:%S"))
        c["wrf"] = [t0.year, t0.month, t0.day, t0.hour, t0.minute, t0.second, 0]
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store"]), "ds": {"dims": dims, "vars": vs, "ga": g}})
    drv.do(c)
