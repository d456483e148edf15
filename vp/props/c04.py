from ..gen import *
from .c10 import UNITS, REFS, iso

FAMILIES = [("ranges", 5000, 30000)]
MUST = ["ext.time", "ext.level", "ext.bbox", "ext.range", "read", "desc"]
ASSUMPTIONS = ["bounding boxes are checked on longitude/latitude grids; on projected grids their outcome depends on the proj library",
               "axis values and limits are multiples of binary fractions, or further apart than the rounding of the tolerance"]


def mono(rng, n, start, steps):
    v = [start]
    for _ in range(n - 1):
        v.append(v[-1] + rng.choice(steps))
    return v


def axis(rng, n, start, steps):
    v = mono(rng, n, start, steps)
    return v[::-1] if rng.random() < 0.4 else v


def source(rng):
    dims, vs, info = {}, {}, {"grids": [], "time": [], "level": []}
    # grids
    for k in range(rng.choice([0, 1, 1, 1, 2])):
        x, y = "x%d" % k, "y%d" % k
        nx, ny = rng.randint(1, 5), rng.randint(1, 4)
        dims[x], dims[y] = {"len": nx, "u": 0}, {"len": ny, "u": 0}
        q = rng.random() < 0.5      # packed in quarters
        m = 4 if q else 1
        lon = axis(rng, nx, m * rng.choice([-180, -20, 0, 5, 150, 170, 179, 340]), [m, 5 * m, 10 * m, 40 * m] + ([1, 2] if q else []))
        lat = axis(rng, ny, m * rng.choice([-90, -20, 0, 60, 80]), [1, m, 2 * m, 3 * m])
        for nm, d, sn, un in ((x, lon, "longitude", "degrees_east"), (y, lat, "latitude", "degrees_north")):
            vs[nm] = {"t": rng.choice(["short", "int"] if q else ["double", "float", "int"]), "sh": [nm], "d": d, "a": {"standard_name": satt(sn), "units": satt(un)}}
            if q:
                vs[nm]["a"]["scale_factor"] = natt("double", 0.25)
        info["grids"].append([x, y])
    if rng.random() < 0.7 or not dims:
        n = rng.randint(1, 5)
        dims["t"] = {"len": n, "u": 1 if rng.random() < 0.6 else 0}
        u = rng.choice(list(UNITS))
        base = rng.randint(60, 200) * 86400
        st = {1: [60, 250, 500, 3600], 60: [1, 10, 60], 3600: [1, 3, 6, 24], 86400: [1, 2, 7]}[UNITS[u]]
        d = axis(rng, n, (base - REFS[u]) // UNITS[u], st)
        vs["t"] = {"t": rng.choice(["int", "double"]), "sh": ["t"], "d": d, "a": {"units": satt(u), "standard_name": satt("time")}}
        info["time"].append("t")
    hu = rng.choice([["m", "cm"], ["m", "km"]])
    for k in range(rng.choice([0, 1, 1, 2])):
        z = "z%d" % k
        n = rng.randint(1, 5)
        dims[z] = {"len": n, "u": 0}
        kind = rng.choice(["p", "h", "d"])
        u = rng.choice(["hPa", "Pa"]) if kind == "p" else rng.choice(hu) if kind == "h" else "m"
        d = axis(rng, n, {"hPa": 50, "Pa": 5000}.get(u, rng.choice([0, 10, -20])), [1, 10, 50, 99, 250, 500] if u != "km" else [1, 2])
        a = {"units": satt(u)}
        if kind != "p":
            a["positive"] = satt("up" if kind == "h" else "down")
            a["standard_name"] = satt("height" if kind == "h" else "depth")
        else:
            a["standard_name"] = satt("air_pressure")
        vs[z] = {"t": rng.choice(["int", "double", "float"]), "sh": [z], "d": d, "a": a}
        info["level"].append(z)
    # fields
    k = 0
    for g in info["grids"] or [[]]:
        for z in (info["level"] or [None]):
            sh = list(g) + ([z] if z else []) + (["t"] if "t" in dims else [])
            t = rng.choice(ALL)
            while prod(dims[d]["len"] for d in sh) > 150:
                dims[sh[0]]["len"] -= 1
                vs[sh[0]]["d"] = vs[sh[0]]["d"][:-1]
            for w in vs.values():     # earlier fields follow
                if len(w["sh"]) > 1:
                    w["d"] = w["d"][:prod(dims[d]["len"] for d in w["sh"])]
            vs["f%d" % k] = {"t": t, "sh": sh, "d": vals(rng, t, prod(dims[d]["len"] for d in sh)), "a": {}}
            k += 1
    if rng.random() < 0.3:
        sh = [rng.choice(sorted(dims))]
        vs["g"] = {"t": "int", "sh": sh, "d": vals(rng, "int", dims[sh[0]]["len"]), "a": {}}
    return {"dims": dims, "vars": vs, "ga": {}}, info


CONV = {("hPa", "hPa"): 1, ("Pa", "Pa"): 1, ("hPa", "Pa"): 100, ("Pa", "hPa"): 0.01, ("m", "m"): 1, ("cm", "cm"): 1, ("km", "km"): 1, ("m", "cm"): 100, ("cm", "m"): 0.01,
        ("km", "m"): 1000, ("m", "km"): 0.001}


def limits(rng, v, st):
    """two limits around the sorted values v; st: first step"""
    def one():
        r = rng.random()
        x = rng.choice(v)
        if r < 0.35:
            return x
        if r < 0.6:
            return x + rng.choice([-1, 1]) * st * rng.choice([0.004, 0.016, 0.5])
        if r < 0.7:
            return rng.choice([min(v) - 3 * st, max(v) + 3 * st])
        return x + rng.choice([-1, 1]) * st * rng.choice([0.25, 0.75, 1.5])
    a, b = one(), one()
    return (a, b) if a <= b or rng.random() < 0.06 else (b, a)


def ranges(rng, drv, tier):
    ds, info = source(rng)
    kind = rng.choice(["mem", "mem", "store", "netcdf4"])
    if drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})["st"] != "ok":
        return
    drv.do({"op": "extract", "id": "e", "from": "s"})
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(["time"] * 3 * bool(info["time"]) + ["level"] * 3 * bool(info["level"]) + ["bbox"] * 3 * bool(info["grids"]) + ["range"])
        c = {"op": "ext", "id": "e", "do": what}
        if what == "time":
            v = ds["vars"]["t"]
            u = v["a"]["units"]["s"]
            s = [x * UNITS[u] + REFS[u] for x in v["d"]]
            st = abs(s[1] - s[0]) if len(s) > 1 else 3600
            a, b = limits(rng, s, st)
            if st % 250 == 0:
                a, b = int(a), int(b)
            else:       # keep off the tolerance
                a, b = [int(x) if abs(x - min(s, key=lambda q: abs(q - x))) > 0.05 * st or x in s else min(s, key=lambda q: abs(q - x)) for x in (a, b)]
            lo, hi = a, b
            c.update({"lo": lo, "hi": hi, "from": iso(lo), "to": iso(hi), "axes": ["t"]})
            if rng.random() < 0.15:
                c.update({"lo": -2000000000, "from": ""})
            if rng.random() < 0.15:
                c.update({"hi": 2000000000, "to": ""})
        elif what == "level":
            z = rng.choice(info["level"])
            u = ds["vars"][z]["a"]["units"]["s"]
            w = rng.choice([b for a, b in CONV if a == u and not {b, *(ds["vars"][q]["a"]["units"]["s"] for q in info["level"])} >= {"cm", "km"}])
            s = [round(1000 * x * CONV[u, w]) for x in ds["vars"][z]["d"]]
            st = abs(s[1] - s[0]) if len(s) > 1 else 10000
            a, b = limits(rng, s, st)
            c.update({"unit": w, "lo": int(round(a)), "hi": int(round(b)), "axes": info["level"]})
            if len(s) == 1 and any(0 < abs(x - s[0]) < 2 for x in (c["lo"], c["hi"])):
                continue
        elif what == "bbox":
            g = rng.choice(info["grids"])
            q = 1 if "scale_factor" in ds["vars"][g[0]]["a"] else 4
            lon = [x * q for x in ds["vars"][g[0]]["d"]]
            lat = [x * q for x in ds["vars"][g[1]]["d"]]
            la = [rng.choice(lat + [-360, 360, 0]) + rng.choice([0, 0, 1, -1, 7]) for _ in range(2)]
            lo = [((rng.choice(lon + [-720, 0]) + rng.choice([0, 0, 1, -1, 15]) + 720) % 1440) - 720 for _ in range(2)]
            if rng.random() < 0.93:
                la = sorted(max(-360, min(360, x)) for x in la)
            if rng.random() < 0.05:
                lo[rng.randint(0, 1)] = rng.choice([720, -721, 721])
            c.update({"s": la[0], "n": la[1], "w": lo[0], "e": lo[1], "grids": info["grids"]})
        else:
            d = rng.choice(sorted(ds["dims"]))
            n = ds["dims"][d]["len"]
            a = rng.randint(0, n - 1)
            c.update({"dim": d, "start": a, "size": rng.randint(1, n - a)})
        drv.do(c)
        if rng.random() < 0.3:
            reads(rng, drv, "e", 1)
    reads(rng, drv, "e", 4)
    reads(rng, drv, "s", 1)
