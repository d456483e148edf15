from ..gen import *
from . import c14

FAMILIES = [("overlays", 1500, 15000), ("smooths", 1500, 15000), ("merges", 800, 8000), ("blends", 400, 4000)]
MUST = ["overlay", "smooth", "merge", "blend", "read", "desc"]
ENV = c14.ENV
ASSUMPTIONS = ["longitude/latitude grids; time and other axes of the two datasets have equal lengths", "the transition and the border fit into the inner grid"]
NAN = 2000000000
UNITS = [("m", "m"), ("m", "m"), ("m", "m"), ("cm", "m"), ("cm", "m"), ("m", ""), ("", "m"), ("K", "m")]


def field(rng, n, t, mul, a, sf=None):
    d = [mul * rng.randint(-10, 10) for _ in range(n)]
    if rng.random() < 0.6:
        a["_FillValue"] = natt(t, rng.choice(d + [11 * mul, 0]))
    if t in ("float", "double"):
        for _ in range(rng.choice([0, 0, 1, n // 3, n])):
            d[rng.randrange(n)] = NAN
    elif "_FillValue" in a:
        f = a["_FillValue"]["m"][0] // 1000
        for _ in range(rng.choice([0, 1, n // 3, n])):
            d[rng.randrange(n)] = f
    if rng.random() < 0.2:
        a["scale_factor"] = {"t": "double", "m": [rng.choice([2000, 500, 4000])]}
    if rng.random() < 0.2:
        a["add_offset"] = {"t": "double", "m": [rng.choice([1000, -5000, 8000])]}
    return d


def pair(rng, ints=True, mul=320):
    """outer (base) and inner (top) dataset; returns them with their axis names"""
    so = 8
    ox = [rng.choice([0, 10, -60, 100])]
    oy = [rng.choice([-40, 0, 20])]
    for _ in range(rng.randint(2, 5)):
        ox.append(ox[-1] + so)
    for _ in range(rng.randint(2, 5)):
        oy.append(oy[-1] + so)
    def inner(o):
        st = rng.choice([2, 2, 4, 8])
        n = rng.randint(2, max(2, min(7, (o[-1] - o[0]) // st + 1)))
        k = (o[-1] - o[0]) // st + 1 - n
        a = o[0] + st * rng.randint(0, max(0, k))
        r = [a + st * i for i in range(n)]
        return r[::-1] if rng.random() < 0.2 else r
    tx, ty = inner(ox), inner(oy)
    if rng.random() < 0.2:
        oy.reverse()
    dims = {}
    if rng.random() < 0.4:
        dims["z"] = {"len": rng.randint(2, 3), "u": 0}
    if rng.random() < 0.6:
        dims["time"] = {"len": rng.randint(1, 3), "u": rng.choice([1, 1, 0])}
    def base(ax, ay, gx, gy):
        vs = {gx: {"t": rng.choice(["double", "float"]), "sh": [gx], "d": list(ax), "a": {"standard_name": satt("longitude"), "units": satt("degrees_east")}},
              gy: {"t": "double", "sh": [gy], "d": list(ay), "a": {"standard_name": satt("latitude"), "units": satt("degrees_north")}}}
        if "z" in dims:
            vs["z"] = {"t": "float", "sh": ["z"], "d": [10 * i for i in range(dims["z"]["len"])], "a": {"standard_name": satt("height"), "units": satt("m"), "positive": satt("up")}}
        if "time" in dims:
            vs["time"] = {"t": "double", "sh": ["time"], "d": [3 * i for i in range(dims["time"]["len"])], "a": {"standard_name": satt("time"), "units": satt("hours since 2000-01-01 00:00:00")}}
        return {"dims": dict({gx: {"len": len(ax), "u": 0}, gy: {"len": len(ay), "u": 0}}, **dims), "vars": vs, "ga": {}}
    gx, gy = ("lon", "lat") if rng.random() < 0.8 else ("longitude", "latitude")
    o, t = base(ox, oy, gx, gy), base(tx, ty, "lon", "lat")
    if rng.random() < 0.5:
        t["ga"]["title"] = satt("x")
    rest = [d for d in ("z", "time") if d in dims]
    TT = ["float", "float", "double"] + (["short", "int"] if ints else [])
    def add(ds, n, sh, ty, u, mul):
        a = {"units": satt(u)} if u else {}
        ds["vars"][n] = {"t": ty, "sh": sh, "d": field(rng, prod(ds["dims"][d]["len"] for d in sh), ty, mul, a), "a": a}
    for k in range(rng.randint(1, 3)):
        r = [d for d in rest if rng.random() < 0.7]
        u = rng.choice(UNITS)
        ty = rng.choice(TT)
        if u[0] != u[1] and ty == "short":
            ty = "float"
        add(o, "v%d" % k, [gx, gy] + r, ty if rng.random() < 0.6 else rng.choice(TT), u[1], mul)
        add(t, "v%d" % k, ["lon", "lat"] + r, ty, u[0], rng.choice([20, mul]))
        if rng.random() < 0.5:
            for x in ("scale_factor", "add_offset"):
                o["vars"]["v%d" % k]["a"].pop(x, None)
                if x in t["vars"]["v%d" % k]["a"]:
                    o["vars"]["v%d" % k]["a"][x] = dict(t["vars"]["v%d" % k]["a"][x])
    if rng.random() < 0.4:
        add(o, "vb", [gx, gy] + [d for d in rest if rng.random() < 0.5], rng.choice(TT), "m", mul)
    if rng.random() < 0.4:
        add(t, "vt", ["lon", "lat"] + [d for d in rest if rng.random() < 0.5], rng.choice(TT), "m", 20)
    if rng.random() < 0.4:
        sh = rng.choice([[], rest])
        ty = rng.choice(TT)
        for ds in (o, t):
            add(ds, "vr", list(sh), ty, "m", mul)
    if rng.random() < 0.2 and "z" in dims:     # other axes in one than in the other
        add(o, "vz", [gx, gy, "z"], "float", "m", mul)
        add(t, "vz", ["lon", "lat"], "float", "m", 20)
    if rng.random() < 0.15:     # a dimension without coordinate in one of them
        w = rng.choice([o, t])
        w["dims"]["e"] = {"len": rng.randint(2, 3), "u": 0}
        add(o, "ve", [gx, gy] + (["e"] if w is o else []), "float", "m", mul)
        add(t, "ve", ["lon", "lat"] + (["e"] if w is t else []), "float", "m", mul)
    return o, t, {"x": gx, "y": gy, "deg": 1}, {"x": "lon", "y": "lat", "deg": 1}


def load(rng, drv, o, t):
    for i, d in (("b", o), ("t", t)):
        drv.do({"op": "src", "id": i, "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": d})


def look(rng, drv, i="r"):
    drv.do({"op": "desc", "id": i})
    reads(rng, drv, i, 5, extra={"scale": 1, "exact": 0, "env": {}})


def overlays(rng, drv, tier):
    o, t, g, tg = pair(rng)
    load(rng, drv, o, t)
    drv.do({"op": "overlay", "id": "r", "base": "b", "top": "t", "m": rng.choice(["nearestneighbor", "bilinear"]), "keep": rng.choice([0, 1]), "g": g, "tg": tg})
    look(rng, drv)


def widths(rng, t, mx):
    n = min(t["dims"]["lon"]["len"], t["dims"]["lat"]["len"])
    tw = rng.choice([x for x in (1, 1, 2, 4, 5) if x <= min(n, mx)])
    return tw, rng.randint(0, max(0, min(2, n - tw)))


def smooths(rng, drv, tier):
    ints = rng.random() < 0.4
    o, t, g, tg = pair(rng, ints)
    load(rng, drv, o, t)
    tw, bw = widths(rng, t, 1 if ints else 5)
    drv.do({"op": "smooth", "id": "r", "base": "b", "top": "t", "m": rng.choice(["nearestneighbor", "bilinear"]), "tw": tw, "bw": bw, "use": rng.choice([0, 1, 1]), "g": g, "tg": tg})
    look(rng, drv)


def merges(rng, drv, tier):
    ints = rng.random() < 0.4
    o, t, g, tg = pair(rng, ints)
    load(rng, drv, o, t)
    tw, bw = widths(rng, t, 1 if ints else 5)
    xs, ys = [], []
    if rng.random() < 0.5:
        ox, oy = (o["vars"][g[k]]["d"] for k in "xy")
        xs = sorted(set(rng.randint(min(ox) - 1, max(ox) + 1) for _ in range(rng.randint(2, 5))) | {t["vars"]["lon"]["d"][0]})
        ys = sorted(set(rng.randint(min(oy) - 1, max(oy) + 1) for _ in range(rng.randint(2, 5))) | {t["vars"]["lat"]["d"][0]})
        # off the halves between points
        ok = lambda p, ax: all((2 * p - a - b) != 0 for ax_ in ax for a, b in zip(ax_, ax_[1:])) and all(abs(2 * (p - e)) != abs(ax_[1] - ax_[0]) for ax_ in ax for e in (ax_[0], ax_[-1]))
        xs = [x for x in xs if ok(x, (ox, t["vars"]["lon"]["d"])) and -180 <= x < 180]
        ys = [y for y in ys if ok(y, (oy, t["vars"]["lat"]["d"])) and -90 <= y <= 90]
        if len(xs) < 2 or len(ys) < 2:
            return
    drv.do({"op": "merge", "id": "r", "base": "b", "top": "t", "m": "nearestneighbor", "tw": tw, "bw": bw, "use": rng.choice([0, 1, 1]), "keep": rng.choice([0, 0, 1]),
            "xs": xs, "ys": ys, "g": g, "tg": tg})
    look(rng, drv)


def blends(rng, drv, tier):
    for _ in range(3):
        nx, ny = rng.randint(1, 14), rng.randint(1, 14)
        tw = rng.randint(1, min(nx, ny))
        bw = rng.randint(0, min(nx, ny) - tw)
        drv.do({"op": "blend", "nx": nx, "ny": ny, "tw": tw, "bw": bw, "vi": rng.randint(-100, 100), "vo": rng.randint(-100, 100), "env": {}})
