from fractions import Fraction
from ..gen import *

FAMILIES = [("points", 1500, 20000), ("fields", 2500, 40000), ("grids", 2500, 20000), ("stations", 1500, 15000)]
MUST = ["p2p", "hval", "interp", "interpto", "interppts", "read"]
ASSUMPTIONS = ["axes are strictly monotonous with at least two values", "positions are chosen away from the places where the methods are discontinuous when they go through the projection library"]
NAN = 2000000000
ENV = {"PROJ_IGNORE_CELESTIAL_BODY": "YES"}
METHODS = ["nearestneighbor", "bilinear", "bicubic"]


def axis(rng, kind, n=None, mul=1):
    """integer axis values, power of two steps unless regular around the globe"""
    if kind == "lon":
        if rng.random() < 0.35:
            st = rng.choice([4, 8, 16, 32, 40] + ([45] if mul == 1 else []))
            n = 360 // st + rng.choice([0, 0, 0, 1, -1])
            a = rng.choice([0, -180, 0, -180, st // 2, -180 + st // 2, -st])
            ax = [a + st * i for i in range(n)]
        else:
            n = n or rng.randint(2, 8)
            ax = [rng.choice([0, 100, -180, -20, 300, -100, 170, 5])]
            for _ in range(n - 1):
                ax.append(ax[-1] + rng.choice([1, 2, 4, 8] if mul == 1 else [4, 8]))
    elif kind == "lat":
        n = n or rng.randint(2, 8)
        ax = [rng.randint(-80, 20)]
        for _ in range(n - 1):
            ax.append(ax[-1] + rng.choice([1, 2, 4, 8] if mul == 1 else [4, 8]))
    else:
        n = n or rng.randint(2, 8)
        ax = [rng.randint(-100, 100)]
        reg = rng.choice([0, 8, 64] if mul > 1 else [0, 1, 2, 8, 64])
        for _ in range(n - 1):
            ax.append(ax[-1] + (reg or rng.choice([4, 8, 16] if mul > 1 else [1, 2, 4, 8, 16])))
    if rng.random() < 0.3:
        ax.reverse()
    return ax


def points(rng, drv, tier):
    for _ in range(3):
        t = rng.choice(["lon", "lon", "lat", "lin"])
        ax = axis(rng, t)
        q = 4
        lo, hi = min(ax), max(ax)
        pts = []
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < 0.25:
                p = rng.choice(ax) * q
            elif r < 0.8:
                p = rng.randint((lo - 3) * q, (hi + 3) * q)
            elif r < 0.84:
                p = NAN
            else:
                p = rng.randint(-180 * q, 360 * q)
            pts.append(p)
        # 45 and 40 degree steps need multiples of their own
        r = 256 if all((ax[i + 1] - ax[i]) in (1, 2, 4, 8, 16, 32, 64, -1, -2, -4, -8, -16, -32, -64) for i in range(len(ax) - 1)) else 45 * 32 * 4
        drv.do({"op": "p2p", "axis": ax, "type": t, "pts": pts, "q": q, "r": r})


def fields(rng, drv, tier):
    for _ in range(4):
        m = rng.choice(METHODS)
        q = rng.choice([1, 2, 4, 4, 8]) if m != "bicubic" else rng.choice([1, 2, 4])
        nx, ny, nz = rng.randint(1, 6), rng.randint(1, 6), rng.choice([1, 1, 2, 3])
        if m == "bicubic":
            nx, ny = rng.randint(3, 7), rng.randint(3, 7)
        d = [rng.randint(-90, 90) for _ in range(nx * ny * nz)]
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                d[rng.randrange(len(d))] = NAN
        x, y = (rng.randint(-q - 1, (n) * q + 1) for n in (nx, ny))
        if rng.random() < 0.3:
            x = rng.randint(0, nx) * q
        if rng.random() < 0.3:
            y = rng.randint(0, ny) * q
        drv.do({"op": "hval", "m": m, "nx": nx, "ny": ny, "nz": nz, "d": d, "x": x, "y": y, "q": q})


STERE = "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +a=1000000 +b=1000000 +units=m +no_defs"
STERE_ATT = {"grid_mapping_name": satt("polar_stereographic"), "straight_vertical_longitude_from_pole": natt("double", 0),
             "latitude_of_projection_origin": natt("double", 90), "standard_parallel": natt("double", 60), "earth_radius": natt("double", 1000)}
LL = "+proj=longlat +datum=WGS84 +no_defs"


def source(rng, deg, mul):
    """mul: multiple of all values, so that interpolated values are whole numbers"""
    gx, gy = ("lon", "lat") if deg else ("x", "y")
    if deg and rng.random() < 0.3:
        gx, gy = rng.choice([("longitude", "latitude"), ("x", "y"), ("xlo", "yla")])
    ax = axis(rng, "lon", rng.randint(2, 7), 4) if deg else axis(rng, "lin", rng.randint(2, 7), 4)
    ay = axis(rng, "lat", rng.randint(2, 7), 4) if deg else axis(rng, "lin", rng.randint(2, 7), 4)
    if len(ax) > 12:
        ax = sorted(ax)[:1]
        for _ in range(rng.randint(1, 6)):
            ax.append(ax[-1] + 4)
    dims = {gx: {"len": len(ax), "u": 0}, gy: {"len": len(ay), "u": 0}}
    vs = {gx: {"t": rng.choice(["double", "float", "int"]), "sh": [gx], "d": ax, "a": {}}, gy: {"t": "double", "sh": [gy], "d": ay, "a": {}}}
    if deg:
        vs[gx]["a"] = {"standard_name": satt("longitude"), "units": satt("degrees_east"), "long_name": satt("l")}
        vs[gy]["a"] = {"standard_name": satt("latitude"), "units": satt("degrees_north")}
    else:
        vs[gx]["a"] = {"standard_name": satt("projection_x_coordinate"), "units": satt("m"), "long_name": satt("l")}
        vs[gy]["a"] = {"standard_name": satt("projection_y_coordinate"), "units": satt("m")}
    if rng.random() < 0.4:
        dims["z"] = {"len": rng.randint(1, 3), "u": 0}
        vs["z"] = {"t": "float", "sh": ["z"], "d": [10 * i for i in range(dims["z"]["len"])], "a": {"standard_name": satt("height"), "units": satt("m"), "positive": satt("up")}}
    if rng.random() < 0.6:
        dims["time"] = {"len": rng.randint(1, 3), "u": rng.choice([1, 1, 0])}
        vs["time"] = {"t": "double", "sh": ["time"], "d": [i * 3 for i in range(dims["time"]["len"])], "a": {"standard_name": satt("time"), "units": satt("hours since 2000-01-01 00:00:00")}}
    rest = [d for d in ("z", "time") if d in dims]
    for k in range(rng.randint(1, 3)):
        sh = [gx, gy] + [d for d in rest if rng.random() < 0.6]
        r = rng.random()
        if r < 0.12 and rest and k:
            sh = rest
        elif r < 0.22 and k:
            sh = [rng.choice([gx, gy])] + rest
        t = rng.choice(["short", "int", "float", "float", "double"])
        n = prod(dims[d]["len"] for d in sh)
        d = [mul * rng.randint(-30, 30) for _ in range(n)]
        a = {"units": satt("K")}
        if rng.random() < 0.5:
            a["_FillValue"] = natt(t, rng.choice(d + [31 * mul]))
        if t in ("float", "double") and rng.random() < 0.3:
            d[rng.randrange(n)] = NAN
        vs["v%d" % k] = {"t": t, "sh": sh, "d": d, "a": a}
    return {"dims": dims, "vars": vs, "ga": ({"title": satt("x")} if rng.random() < 0.5 else {})}, gx, gy


def position(ax, p):
    up = ax[0] < ax[-1]
    b = next((i for i in range(len(ax)) if (ax[i] >= p if up else ax[i] <= p)), len(ax))
    b = max(1, min(len(ax) - 1, b))
    return Fraction(p - ax[b - 1], ax[b] - ax[b - 1]) + b - 1


def between(rng, ax, m):
    """a whole number whose position is in quarters (nearest: not on a half)"""
    s = sorted(ax)
    i = rng.randrange(len(s) - 1)
    st = s[i + 1] - s[i]
    while True:
        p = s[i] + rng.choice([0, st // 4, st // 2, st * 3 // 4, st // 4, st * 3 // 4, -(st // 4), st + st // 4, -st, 2 * st + st // 4, rng.randint(-st, 3 * st)])
        x = position(ax, p)
        if (x % 1 != Fraction(1, 2)) if m == "nearestneighbor" else (x * 4).denominator == 1 and (x % 1 != Fraction(1, 2) or 0 <= x <= len(ax) - 1) and (m == "bilinear" or x.denominator > 1 or not 0 <= x < len(ax)):
            return p


def grids(rng, drv, tier):
    deg = rng.random() < 0.7
    m = rng.choice(METHODS)
    mul = {"nearestneighbor": 1, "bilinear": 16, "bicubic": 16384}[m]
    ds, gx, gy = source(rng, deg, mul)
    if m == "bicubic":
        # larger numbers do not fit in short
        for n, v in ds["vars"].items():
            if n[0] == "v" and v["t"] == "short":
                v["t"] = "int"
                if "_FillValue" in v["a"]:
                    v["a"]["_FillValue"] = dict(v["a"]["_FillValue"], t="int")
            if n[0] == "v":
                v["d"] = [x if x == NAN else (x // mul) % 9 * mul - 4 * mul for x in v["d"]]
    if not deg:
        ds["vars"]["pp"] = {"t": "int", "sh": [], "d": [0], "a": dict(STERE_ATT)}
        for n, v in ds["vars"].items():
            if n[0] == "v":
                v["a"]["grid_mapping"] = satt("pp")
        ds["vars"]["pp"]["a"]["earth_radius"] = {"t": "double", "m": [1000 * 1000000]}
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": ds})
    drv.do({"op": "interp", "id": "i", "from": "s"})
    for _ in range(rng.choice([1, 1, 2])):
        q = 1
        ax, ay = ds["vars"][gx]["d"], ds["vars"][gy]["d"]
        xs = sorted(set(between(rng, ax, m) for _ in range(rng.randint(1, 5))))
        ys = sorted(set(between(rng, ay, m) for _ in range(rng.randint(1, 5))))
        if deg:
            xs = [x for x in xs if -180 * q <= x < 360 * q] or [ax[0] * q]
            ys = [y for y in ys if -90 * q <= y <= 90 * q] or [ay[0] * q]
        if rng.random() < 0.3:
            xs.reverse()
        if rng.random() < 0.3:
            ys.reverse()
        c = {"op": "interpto", "id": "i", "m": m, "proj": LL if deg else STERE, "xs": xs, "ys": ys, "q": q, "r": 320 if m == "nearestneighbor" else 4,
             "xu": "degree" if deg else "m", "yu": "degree" if deg else "m", "xt": rng.choice(["double", "float", "int"]), "yt": "double",
             "g": {"x": gx, "y": gy, "deg": 1 if deg else 0}}
        drv.do(c)
        look(rng, drv, ds, gx, gy, deg)
    if rng.random() < 0.3:
        reads(rng, drv, "s", 2)


def look(rng, drv, ds, gx, gy, deg):
    only = None
    if not deg:
        only = sorted(v for v in ds["vars"] if v != "pp" and (v in (gx, gy) or v[0] != "v" or not (gx in ds["vars"][v]["sh"]) ^ (gy in ds["vars"][v]["sh"])))
    reads(rng, drv, "i", 5, extra={"scale": 1, "exact": 0}, names=only)


def stations(rng, drv, tier):
    m = rng.choice(METHODS[:2])
    mul = {"nearestneighbor": 1, "bilinear": 16}[m]
    ds, gx, gy = source(rng, True, mul)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": ds})
    drv.do({"op": "interp", "id": "i", "from": "s"})
    q = 1
    ax, ay = ds["vars"][gx]["d"], ds["vars"][gy]["d"]
    tm = rng.random() < 0.4
    nx, ny = rng.randint(1, 6), (rng.randint(1, 3) if tm else 1)
    lon, lat = [], []
    for _ in range(nx * ny):
        x, y = between(rng, ax, m), between(rng, ay, m)
        lon.append(x if -180 * q <= x < 360 * q else ax[0] * q)
        lat.append(y if -90 * q <= y <= 90 * q else ay[0] * q)
    c = {"op": "interppts", "id": "i", "m": m, "lon": lon, "lat": lat, "q": q, "r": 320 if m == "nearestneighbor" else 4, "nx": nx, "ny": ny, "xu": "1", "yu": "1",
         "g": {"x": gx, "y": gy, "deg": 1}}
    if tm:
        # a template: two-dimensional longitudes and latitudes on x and y
        t = {"dims": {"x": {"len": nx, "u": 0}, "y": {"len": ny, "u": 0}}, "ga": {},
             "vars": {"x": {"t": "double", "sh": ["x"], "d": list(range(nx)), "a": {"units": satt("1"), "standard_name": satt("projection_x_coordinate")}},
                      "y": {"t": "double", "sh": ["y"], "d": list(range(ny)), "a": {"units": satt("1"), "standard_name": satt("projection_y_coordinate")}},
                      "longitude": {"t": "double", "sh": ["x", "y"], "d": lon, "a": {"units": satt("degrees_east"), "standard_name": satt("longitude")}},
                      "latitude": {"t": "double", "sh": ["x", "y"], "d": lat, "a": {"units": satt("degrees_north"), "standard_name": satt("latitude")}},
                      "ref": {"t": "float", "sh": ["x", "y"], "d": [1] * (nx * ny), "a": {"coordinates": satt("longitude latitude")}}}}
        drv.do({"op": "src", "id": "t", "kind": "mem", "ds": t})
        c.update(tmpl="t", ref="ref")
    drv.do(c)
    reads(rng, drv, "i", 5, extra={"scale": 1, "exact": 0})
