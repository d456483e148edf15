from ..gen import *
from . import c14

FAMILIES = [("grids", 3000, 30000), ("curved", 2500, 25000)]
MUST = ["interp", "interpto", "read", "desc"]
ENV = c14.ENV
ASSUMPTIONS = ["target grids are longitude/latitude grids; no source point lies on the border between two cells"]
NAN = 2000000000
METHODS = ["forward_%s%s" % (u, m) for u in ("", "undef_") for m in ("sum", "mean", "median", "min", "max")]


def target(rng, vals, lon):
    """axis with cell borders away from all vals"""
    for _ in range(50):
        st = rng.choice([2, 4, 8, 8, 16])
        n = rng.randint(2, 6)
        a = rng.randint(min(vals) - 6, max(vals))
        ax = [a + st * i for i in range(n)]
        if rng.random() < 0.3:
            ax = sorted({a + rng.choice([2, 4, 8]) * i * rng.choice([1, 1, 2]) for i in range(n)})
            if any((ax[i + 1] - ax[i]) not in (2, 4, 8, 16, 32) for i in range(len(ax) - 1)) or len(ax) < 2:
                continue
        if rng.random() < 0.25:
            ax.reverse()
        if lon and (min(ax) < -180 or max(ax) >= 360) or not lon and (min(ax) < -90 or max(ax) > 90):
            continue
        ok = True
        for i in range(len(ax) - 1):
            ok = ok and (ax[i] + ax[i + 1]) // 2 not in [w for v in vals for w in ((v, v + 360, v - 360) if lon else (v,))]
        for e, f in ((ax[0], ax[1]), (ax[-1], ax[-2])):
            ok = ok and e - (f - e) // 2 not in [w for v in vals for w in ((v, v + 360, v - 360) if lon else (v,))]
        if ok:
            return ax
    return None


def variables(rng, vs, dims, gx, gy, coords, m):
    rest = [d for d in ("z", "time") if d in dims]
    for k in range(rng.randint(1, 4)):
        t = rng.choice(["float", "float", "double", "int"] + ([] if "sum" in m else ["short"]))
        sh = [gx, gy] + [d for d in rest if rng.random() < 0.7]
        n = prod(dims[d]["len"] for d in sh)
        d = [840 * rng.randint(-20, 20) for _ in range(n)]
        a = {"units": satt("m")}
        if coords:
            a["coordinates"] = satt(coords)
        if rng.random() < 0.6:
            a["_FillValue"] = natt(t, rng.choice(d + [-840 * 21]))
            f = a["_FillValue"]["m"][0] // 1000
            for _ in range(rng.choice([0, 1, n // 4, n // 2, n])):
                d[rng.randrange(n)] = f
        if t in ("float", "double"):
            for _ in range(rng.choice([0, 0, 1, n // 4])):
                d[rng.randrange(n)] = NAN
        vs["v%d" % k] = {"t": t, "sh": sh, "d": d, "a": a}
    if rng.random() < 0.4:
        vs["w"] = {"t": "float", "sh": rest, "d": [i for i in range(prod(dims[d]["len"] for d in rest))], "a": {}}


def rest(rng, dims, vs):
    if rng.random() < 0.5:
        dims["z"] = {"len": rng.randint(2, 3), "u": 0}
        vs["z"] = {"t": "float", "sh": ["z"], "d": [10 * i for i in range(dims["z"]["len"])], "a": {"standard_name": satt("height"), "units": satt("m"), "positive": satt("up")}}
    if rng.random() < 0.5:
        dims["time"] = {"len": rng.randint(1, 3), "u": rng.choice([1, 1, 0])}
        vs["time"] = {"t": "double", "sh": ["time"], "d": [3 * i for i in range(dims["time"]["len"])], "a": {"standard_name": satt("time"), "units": satt("hours since 2000-01-01 00:00:00")}}


LON = {"standard_name": satt("longitude"), "units": satt("degrees_east")}
LAT = {"standard_name": satt("latitude"), "units": satt("degrees_north")}


def run(rng, drv, ds, g, lons, lats, m):
    xs, ys = target(rng, lons, True), target(rng, lats, False)
    if xs is None or ys is None:
        return
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": ds})
    drv.do({"op": "interp", "id": "i", "from": "s"})
    drv.do({"op": "interpto", "id": "i", "m": m, "proj": c14.LL, "xs": xs, "ys": ys, "q": 1, "r": 320, "xu": "degree", "yu": "degree",
            "xt": rng.choice(["double", "float", "int"]), "yt": "double", "g": g})
    reads(rng, drv, "i", 5, extra={"scale": 1, "exact": 0, "env": {}})


def grids(rng, drv, tier):
    m = rng.choice(METHODS)
    gx, gy = rng.choice([("lon", "lat"), ("lon", "lat"), ("longitude", "latitude"), ("x", "y")])
    nx, ny = rng.randint(2, 14), rng.randint(2, 14)
    ax, ay = ([rng.choice(s)] for s in ([0, -100, 170, 300, -20], [-80, 0, 40]))
    st = rng.choice([1, 1, 2, 3])
    for i in range(nx - 1):
        ax.append(ax[-1] + st)
    for i in range(ny - 1):
        ay.append(ay[-1] + rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        ay.reverse()
    dims = {gx: {"len": nx, "u": 0}, gy: {"len": ny, "u": 0}}
    vs = {gx: {"t": rng.choice(["double", "float", "int"]), "sh": [gx], "d": ax, "a": dict(LON)}, gy: {"t": "double", "sh": [gy], "d": ay, "a": dict(LAT)}}
    rest(rng, dims, vs)
    variables(rng, vs, dims, gx, gy, "", m)
    run(rng, drv, {"dims": dims, "vars": vs, "ga": {}}, {"x": gx, "y": gy, "lon": gx, "lat": gy}, ax, ay, m)


def curved(rng, drv, tier):
    m = rng.choice(METHODS)
    nx, ny = rng.randint(2, 10), rng.randint(2, 10)
    o, p = rng.choice([0, -100, 30, -20]), rng.choice([-60, 0, 50])
    dx, dy = rng.randint(-2, 2), rng.randint(-2, 2)
    sx, sy = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    lon = [o + sx * i + dx * j for j in range(ny) for i in range(nx)]
    lat = [p + sy * j + dy * i for j in range(ny) for i in range(nx)]
    dims = {"x": {"len": nx, "u": 0}, "y": {"len": ny, "u": 0}}
    vs = {"lon": {"t": "double", "sh": ["x", "y"], "d": lon, "a": dict(LON)}, "lat": {"t": rng.choice(["double", "float"]), "sh": ["x", "y"], "d": lat, "a": dict(LAT)}}
    if rng.random() < 0.5:
        vs["x"] = {"t": "float", "sh": ["x"], "d": list(range(nx)), "a": {"standard_name": satt("projection_x_coordinate"), "units": satt("m"), "long_name": satt("l")}}
        vs["y"] = {"t": "float", "sh": ["y"], "d": list(range(ny)), "a": {"standard_name": satt("projection_y_coordinate"), "units": satt("m")}}
    rest(rng, dims, vs)
    variables(rng, vs, dims, "x", "y", "lon lat", m)
    run(rng, drv, {"dims": dims, "vars": vs, "ga": {}}, {"x": "x", "y": "y", "lon": "lon", "lat": "lat"}, lon, lat, m)
