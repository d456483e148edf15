from ..gen import *
import datetime

FAMILIES = [("lists", 3000, 30000), ("interpol", 3000, 30000)]
MUST = ["timespec", "tint", "tintchange", "read"]
UNITS = {"seconds since 1970-01-01 00:00:00": 1, "seconds since 2000-01-01 00:00:00": 1, "minutes since 2000-01-02 12:00:00": 60,
         "hours since 2000-01-01 00:00:00": 3600, "hours since 1999-12-31 18:00:00": 3600, "days since 1999-12-30 00:00:00": 86400}
REFS = {"seconds since 1970-01-01 00:00:00": -946684800, "seconds since 2000-01-01 00:00:00": 0, "minutes since 2000-01-02 12:00:00": 129600,
        "hours since 2000-01-01 00:00:00": 0, "hours since 1999-12-31 18:00:00": -21600, "days since 1999-12-30 00:00:00": -172800}
ASSUMPTIONS = ["times and interpolation weights are multiples of powers of two, so that single precision is exact",
               "lists relative to a reference time are checked for time axes after that reference"]


def iso(s):
    return (datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=s)).strftime("%Y-%m-%d %H:%M:%S")


def text(rng, c):
    parts = []
    for e in c["list"]:
        sp = " " if rng.random() < 0.2 else ""
        if e["k"] == "dots":
            parts.append("...")
        elif e["k"] == "t":
            parts.append(iso(e["v"]).replace(" ", "T" if sp and rng.random() < 0.0 else " "))
        elif e["k"] == "v":
            parts.append(str(e["v"]))
        else:
            parts.append("x" if e["v"] == 0 else "x%s%s%s%d" % (sp, "+" if e["v"] > 0 else "-", sp, abs(e["v"])))
    t = ",".join(parts)
    opts = []
    if c["rel"]:
        opts.append("relativeUnit=" + c["rel"])
    if c["unit"]:
        opts.append("unit=" + c["unit"])
    if len(opts) == 2 and rng.random() < 0.5:
        opts.reverse()
    return ";".join([t] + opts)


def tlist(rng, c, start, end, step, around):
    """fills c.list, c.rel, c.unit, c.text; times are multiples of step seconds"""
    c["unit"] = rng.choice(["", "", "hours since 2000-01-01 00:00:00"] + list(UNITS))
    c["rel"] = ""
    l = []
    if rng.random() < 0.6:
        n = rng.randint(1, 5)
        ts = [step * rng.randint(*around) for _ in range(n)]
        if rng.random() < 0.6:
            ts = sorted(set(ts))
        l = [{"k": "t", "v": t} for t in ts]
        if len(l) >= 2 and rng.random() < 0.6:
            p = rng.randint(2, len(l))
            a = l[p - 1]["v"] - l[p - 2]["v"]
            after = l[p]["v"] if p < len(l) else l[p - 1]["v"] + a * rng.randint(1, 5) + rng.choice([0, 0, step])
            if a and abs(after - l[p - 1]["v"]) / abs(a) < 30:
                l.insert(p, {"k": "dots"})
                if p + 1 == len(l):
                    l.append({"k": "t", "v": after})
    else:
        us = [u for u in UNITS if UNITS[u] % step == 0 and start >= REFS[u]]
        if not us:
            return tlist(rng, c, start, end, step, around)
        c["rel"] = rng.choice(us)
        m = UNITS[c["rel"]]
        d = rng.choice([1, 2, 3, 4, 6, 12]) if m > 1 else step * rng.choice([1, 2, 4])
        if (end - start) / (d * m) > 30:
            d *= 8
        a = rng.choice([0, 0, -d, d])
        l = [{"k": "v", "v": a}, {"k": "v", "v": a + d}]
        if rng.random() < 0.8:
            l += [{"k": "dots"}, {"k": "x", "v": rng.choice([0, 0, d, -d, 1, -1])}]
        if rng.random() < 0.4:
            l += [{"k": "x", "v": rng.choice([0, d, -d, 12, -3])}]
    if rng.random() < 0.06:
        l = rng.choice([[{"k": "dots"}] + l, l[:1] + [{"k": "dots"}], l[:1] + [{"k": "dots"}] + l[1:], l + [{"k": "dots"}]])
        if len(l) > 2 and l[-1]["k"] == "dots" and l[-2]["k"] == "dots":
            l.pop()
    if c["rel"] and len(l) > 1 and l[0]["k"] == "v" and l[1]["k"] == "v" and l[0]["v"] == l[1]["v"]:
        l = l[:1]
    c["list"] = l
    c["text"] = text(rng, c)


def lists(rng, drv, tier):
    for _ in range(4):
        step = rng.choice([1, 60, 900, 3600])
        a = rng.randint(130, 300) * 3600
        c = {"op": "timespec", "start": a, "end": a + step * rng.randint(0, 40)}
        tlist(rng, c, c["start"], c["end"], step, (-50, 200))
        drv.do(c)


def axes(dims):
    std = {"x": ("projection_x_coordinate", "m"), "y": ("projection_y_coordinate", "m"), "z": ("height", "m")}
    vs = {}
    for d in dims:
        if d in std:
            vs[d] = {"t": "float", "sh": [d], "d": [10 * i for i in range(dims[d]["len"])], "a": {"standard_name": satt(std[d][0]), "units": satt(std[d][1])}}
            if d == "z":
                vs[d]["a"]["positive"] = satt("up")
    return vs


def source(rng, nmax=5):
    dims = {d: {"len": rng.randint(1, 3), "u": 0} for d in ("x", "y", "z") if rng.random() < 0.6}
    n = rng.randint(1, nmax)
    dims["time"] = {"len": n, "u": 1}
    vs = axes(dims)
    u = rng.choice([x for x in UNITS])
    base = 900 * rng.randint(150 * 4, 200 * 4)
    t = [base]
    for _ in range(n - 1):
        t.append(t[-1] + 900 * rng.choice([1, 2, 4, 8, 16, 4]))
    if UNITS[u] > 60:
        # in units that hold them exactly
        f = UNITS[u] // 900
        t = [base // UNITS[u] * UNITS[u] + (x - base) * f for x in t]
    vs["time"] = {"t": rng.choice(["double", "double", "int"]), "sh": ["time"], "d": [(x - REFS[u]) // UNITS[u] for x in t], "a": {"units": satt(u), "standard_name": satt("time")}}
    sp = [d for d in ("x", "y", "z") if d in dims]
    for k in range(rng.randint(1, 3)):
        sh = [d for d in sp if rng.random() < 0.7] + (["time"] if k == 0 or rng.random() < 0.85 else [])
        if not sh:
            sh = ["time"]
        ty = rng.choice(["short", "int", "float", "double", "char", "int64"])
        b = 20 if ty == "char" else 100
        d = [rng.randint(-b, b) for _ in range(prod(dims[q]["len"] for q in sh))]
        a = {}
        if rng.random() < 0.5:
            a["_FillValue"] = natt(ty, rng.choice(d + [99]))
        if ty in ("float", "double") and rng.random() < 0.4:
            d[rng.randrange(len(d))] = 2000000000
        vs["v%d" % k] = {"t": ty, "sh": sh, "a": a, "d": d}
    return {"dims": dims, "vars": vs, "ga": {}}, t


def interpol(rng, drv, tier):
    ds, t = source(rng)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "netcdf4"]), "ds": ds})
    drv.do({"op": "tint", "id": "t", "from": "s"})
    if rng.random() < 0.2:
        reads(rng, drv, "t", 3)
    for _ in range(rng.choice([1, 1, 1, 2])):
        c = {"op": "tintchange", "id": "t", "axis": "time"}
        # on a grid the float weights of which are exact
        q = t[0]
        step = 900 if q % 3600 or rng.random() < 0.6 else 3600
        if ds["vars"]["time"]["a"]["units"]["s"].startswith("days"):
            step = 10800
        lo, hi = t[0] // step - 6, t[-1] // step + 6
        tlist(rng, c, t[0], t[-1], step, (lo, hi))
        drv.do(c)
        reads(rng, drv, "t", 5)
    if rng.random() < 0.3:
        reads(rng, drv, "s", 2)
    if rng.random() < 0.2:
        drv.do({"op": "extract", "id": "e", "from": "t"})
        n = drv.do({"op": "desc", "id": "e"})["dims"]["time"]["len"]
        drv.do({"op": "ext", "id": "e", "do": "set", "dim": "time", "pos": sorted(rng.sample(range(n), rng.randint(1, n)))})
        reads(rng, drv, "e", 3)
