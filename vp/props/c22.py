import importlib

from ..gen import *
from . import c06, c11

FAMILIES = [("reading", 2500, 25000), ("gridded", 1500, 15000), ("callbacks", 1800, 18000), ("modified", 600, 6000), ("writing", 1800, 18000)]
MUST = ["capi"]
ASSUMPTIONS = ["values fit the type of the variable they are written to", "results of callbacks are whole numbers",
               "no reference-time dimension (its slices are set to the first position by the interface)"]
NAN = 2000000000


def packed(rng, ds, whole=False):
    for n, v in ds["vars"].items():
        t = v["t"]
        if rng.random() < 0.5:
            v["a"]["_FillValue" if rng.random() < 0.8 else "missing_value"] = natt(t, rng.choice(([x for x in v["d"] if abs(x) < 2000] or [7]) + [0, 99]) if t not in ("char", "uchar") else rng.choice([0, 99]))
        if rng.random() < 0.3:
            v["a"]["scale_factor"] = natt("double", rng.choice([2, 3] if whole else [0.5, 2, 0.1, -1]))
        if rng.random() < 0.3:
            v["a"]["add_offset"] = natt("double", rng.choice([2, -3] if whole else [0.5, 2, 273.15, -1]))
        if t in ("float", "double") and rng.random() < 0.3:
            v["d"][rng.randrange(len(v["d"]))] = NAN
        if rng.random() < 0.3 and n not in ds["dims"]:
            v["a"]["units"] = satt(rng.choice(["m", "K", "hPa"]))
    return ds


def cread(rng, drv, rid, o, n=4, bad=0.15, only=None):
    dims = desc_dims(o)
    un = [d for d in o["dims"] if o["dims"][d]["u"]]
    vs = sorted(v for v in o["vars"] if o["vars"][v]["t"] not in ("string", "strings", "nat") and (only is None or v in only))
    for _ in range(n):
        if not vs:
            return
        v = rng.choice(vs)
        sh = o["vars"][v]["sh"]
        c = {"op": "capi", "f": "read", "id": rid, "var": v}
        r = rng.random()
        if r < 0.6:
            c["sl"] = {d: x for d, x in block(rng, dims, sh, bad).items() if x[0] >= 0}
            if rng.random() < 0.3:
                c["unit"] = rng.choice(["cm", "degC", "Pa", "m"])
            if rng.random() < 0.3:
                drv.do({"op": "capi", "f": "slice", "id": rid, "var": v, "sl": c["sl"]})
        elif r < 0.85:
            n0 = dims[un[0]] if un else 1
            c["pos"] = rng.randint(0, max(0, n0 - 1))
            if rng.random() < bad:
                c["pos"] = rng.choice([n0, n0 + 1])
        if rng.random() < 0.03:
            c["var"] = "nosuch"
            c["sl"] = {}
        drv.do(c)


def reading(rng, drv, tier):
    ds = packed(rng, dataset(rng, maxlen=4, maxtot=60))
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store"]), "ds": ds})
    rid = "s"
    r = rng.random()
    if r < 0.4:
        if drv.do({"op": "capi", "f": "write", "from": "s", "file": "a", "type": rng.choice(["netcdf4", "nc4", "netcdf3", "nc4", "nonsense"]), "null": rng.choice([0, 1])}).get("st") != "ok":
            return
        if rng.random() < 0.1:
            drv.do({"op": "capi", "f": "open", "id": "o", "file": "a", "type": "netcdf"})
        drv.do({"op": "capi", "f": "open", "id": "o", "file": "a", "type": rng.choice(["netcdf", "nc"])})
        rid = "o"
    drv.do({"op": "capi", "f": "desc", "id": rid})
    o = drv.do({"op": "desc", "id": rid})
    if o.get("st") == "ok":
        cread(rng, drv, rid, o, 5)


def grid(rng):
    """a dataset with coordinate systems"""
    nx, ny, nt = rng.randint(2, 4), rng.randint(2, 4), rng.randint(1, 3)
    ds = {"dims": {"x": {"len": nx, "u": 0}, "y": {"len": ny, "u": 0}, "time": {"len": nt, "u": rng.choice([0, 1])}}, "vars": {}, "ga": {"Conventions": satt("CF-1.0")}}
    lonlat = rng.random() < 0.6
    for d, n, u, sn in (("x", nx, "degrees_east" if lonlat else "m", "longitude" if lonlat else "projection_x_coordinate"), ("y", ny, "degrees_north" if lonlat else "m", "latitude" if lonlat else "projection_y_coordinate")):
        ds["vars"][d] = {"t": rng.choice(["int", "double", "float"]), "sh": [d], "d": [10 + 2 * i for i in range(n)], "a": {"units": satt(u), "standard_name": satt(sn)}}
    ds["vars"]["time"] = {"t": "double", "sh": ["time"], "d": [3600 * i for i in range(nt)], "a": {"units": satt("seconds since 1970-01-01 00:00:00"), "standard_name": satt("time")}}
    if rng.random() < 0.5:
        ds["dims"]["z"] = {"len": rng.randint(1, 3), "u": 0}
        ds["vars"]["z"] = {"t": "double", "sh": ["z"], "d": [100 * (i + 1) for i in range(ds["dims"]["z"]["len"])], "a": {"units": satt("hPa"), "standard_name": satt("air_pressure"), "positive": satt("down")}}
    if not lonlat:
        ds["vars"]["proj"] = {"t": "int", "sh": [], "d": [0], "a": {"grid_mapping_name": satt("polar_stereographic"), "straight_vertical_longitude_from_pole": natt("double", 0), "latitude_of_projection_origin": natt("double", 90), "scale_factor_at_projection_origin": natt("double", 1), "earth_radius": natt("double", 6371)}}
        for n in ("lon", "lat"):
            if rng.random() < 0.7:
                ds["vars"][n] = {"t": "double", "sh": ["x", "y"], "d": [i for i in range(nx * ny)], "a": {"units": satt("degrees_" + ("east" if n == "lon" else "north")), "standard_name": satt("longitude" if n == "lon" else "latitude")}}
    for k in range(rng.randint(1, 4)):
        sh = rng.choice([["x", "y"], ["x", "y"], ["x"], ["y"]])[:]
        if "z" in ds["dims"] and rng.random() < 0.5:
            sh.append("z")
        if rng.random() < 0.5:
            rng.shuffle(sh)      # variables of one coordinate system, in different orders
        if rng.random() < 0.7:
            sh.append("time")
            if not ds["dims"]["time"]["u"] and rng.random() < 0.3:
                rng.shuffle(sh)
        t = rng.choice(["short", "int", "double", "float"])
        n = prod(ds["dims"][d]["len"] for d in sh)
        v = {"t": t, "sh": sh, "d": rng.sample(range(0, 500), n), "a": {"units": satt(rng.choice(["m", "K"]))}}
        if not lonlat:
            v["a"]["grid_mapping"] = satt("proj")
            if "lon" in ds["vars"] and "lat" in ds["vars"]:
                v["a"]["coordinates"] = satt("lon lat")
        ds["vars"]["v%d" % k] = v
    return ds


def gridded(rng, drv, tier):
    ds = grid(rng)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "netcdf4"]) if not any(d not in {x for v in ds["vars"].values() for x in v["sh"]} for d in ds["dims"]) else "store", "ds": ds})
    drv.do({"op": "capi", "f": "desc", "id": "s"})
    o = drv.do({"op": "desc", "id": "s"})
    if o.get("st") == "ok":
        cread(rng, drv, "s", o, 6, only=[v for v in ds["vars"] if v[0] == "v"] + ["x", "time"])


class NonEmpty:
    """leaves out reads of nothing: whether they call a failing callback does not matter"""
    def __init__(self, drv):
        self.drv = drv

    def do(self, c):
        if any(x[1] == 0 for x in c.get("sl", {}).values()):
            return {"st": "skipped"}
        return self.drv.do(c)


def callbacks(rng, drv, tier):
    drv = NonEmpty(drv)
    ds = packed(rng, dataset(rng, maxlen=4, maxtot=40), whole=True) if rng.random() < 0.7 else grid(rng)
    for v in ds["vars"].values():
        v["d"] = [x if x == NAN else x % 500 if v["t"] not in ("char", "uchar") else x for x in v["d"]]
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "mem", "store"]), "ds": ds})
    drv.do({"op": "capi", "f": "callback", "id": "c", "from": "s"})
    vs = sorted(ds["vars"])
    rid, lvl = "c", 0
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.45:
            v = rng.choice(vs + ["nosuch"] * (rng.random() < 0.2))
            if v in ds["dims"]:
                continue
            drv.do({"op": "capi", "f": "set", "id": rid if rng.random() < 0.93 else "s", "var": v, "what": rng.choice(["twice", "twice", "twice", "sizes", "fails"])})
        elif r < 0.55 and lvl < 1:
            lvl += 1
            drv.do({"op": "capi", "f": "callback", "id": "c2", "from": rid})
            rid = "c2"
        else:
            w = rng.choice([rid, rid, "c", "s"])
            o = drv.do({"op": "desc", "id": w})
            if o.get("st") == "ok":
                if rng.random() < 0.5:
                    cread(rng, drv, w, o, 2, only=[v for v in vs if v not in ds["dims"]])
                else:
                    reads(rng, drv, w, 2, only=lambda v, d: v not in ds["dims"])
    o = drv.do({"op": "desc", "id": rid})
    if o.get("st") == "ok":
        cread(rng, drv, rid, o, 3)
        reads(rng, drv, "s", 2)


def modified(rng, drv, tier):
    ds = c06.source(rng)
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    if drv.do({"op": "capi", "f": "ncml", "id": "n", "from": "s", "doc": c06.mkdoc(rng, ds)}).get("st") != "ok":
        return
    drv.do({"op": "capi", "f": "desc", "id": "n"})
    reads(rng, drv, "n", 3)


def writing(rng, drv, tier):
    ty = rng.choice(c11.TYPES)
    ds = prune(dataset(rng, types=NC3 if ty != "netcdf4" else [t for t in ALL if t != "uint64"], maxlen=3, maxtot=30))
    for v in ds["vars"].values():
        c11.pack(rng, v)
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    if drv.do({"op": "capi", "f": "write", "from": "s", "file": "f", "type": ty, "null": 0}).get("st") != "ok":
        return
    drv.do({"op": "capi", "f": "open", "id": "h", "file": "f", "type": "netcdf+rw" if rng.random() < 0.95 else "netcdf"})
    o = drv.do({"op": "desc", "id": "h"})
    if o.get("st") != "ok":
        return
    dims = desc_dims(o)
    vs = sorted(ds["vars"])
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(vs)
        v = ds["vars"][n]
        sl = {d: x for d, x in block(rng, dims, v["sh"], 0.05).items() if x[0] >= 0}
        size = prod(sl[d][1] if d in sl else dims[d] for d in v["sh"])
        if rng.random() < 0.05:
            size += 1
        if size == 0:
            continue
        c = {"op": "capi", "f": "put", "id": "h", "var": n, "sl": sl, "unit": ""}
        sc, of = [v["a"].get(k, {"m": [dv]})["m"][0] for k, dv in (("scale_factor", 1000), ("add_offset", 0))]
        if rng.random() < 0.3 and v["t"] in ("short", "int"):
            c["unit"] = rng.choice(c11.UN.get(v["a"].get("units", {}).get("s"), ["m", "K"]))
            c["d"] = [NAN if rng.random() < 0.15 else 1000 * rng.randint(0, 20) for _ in range(size)]
        else:
            c["d"] = [NAN if rng.random() < 0.15 else rng.randint(0, 60) * sc + of + (rng.choice([0, 0, sc // 4, sc // 2]) if v["t"] not in ("float", "double") else 0) for _ in range(size)]
        drv.do(c)
        if rng.random() < 0.4:
            cread(rng, drv, "h", o, 1, bad=0)
    drv.do({"op": "drop", "id": "h"})
    drv.do({"op": "open", "id": "o", "file": "f"})
    drv.do({"op": "desc", "id": "o"})
    for n in vs:
        drv.do({"op": "read", "id": "o", "var": n, "mode": "raw"})
