from ..gen import *
from .c10 import iso, UNITS, REFS
from .c14 import LL

FAMILIES = [("pipes", 4000, 40000)]
MUST = ["extract", "tint", "tintchange", "interp", "interpto", "vert", "vertto", "proc", "ncml", "agg", "write", "open", "read"]
ASSUMPTIONS = ["interpolating stages ask for coordinates that exist in their source, so that every stage is exact; values between coordinates are decided by C10, C14 and C17"]
TU = "hours since 2000-01-01 00:00:00"


def base(rng, t0):
    dims = {"lon": {"len": rng.randint(2, 4), "u": 0}, "lat": {"len": rng.randint(2, 3), "u": 0}, "time": {"len": rng.randint(1, 4), "u": 1}}
    vs = {"lon": {"t": "double", "sh": ["lon"], "d": [2 * i for i in range(dims["lon"]["len"])], "a": {"standard_name": satt("longitude"), "units": satt("degrees_east")}},
          "lat": {"t": "double", "sh": ["lat"], "d": [50 + 2 * i for i in range(dims["lat"]["len"])], "a": {"standard_name": satt("latitude"), "units": satt("degrees_north")}},
          "time": {"t": "double", "sh": ["time"], "d": [t0 + 3 * i for i in range(dims["time"]["len"])], "a": {"standard_name": satt("time"), "units": satt(TU)}}}
    z = rng.random() < 0.7
    if z:
        dims["z"] = {"len": rng.randint(2, 4), "u": 0}
        vs["z"] = {"t": "double", "sh": ["z"], "d": sorted(rng.sample(range(100, 1000, 25), dims["z"]["len"]), reverse=rng.random() < 0.5), "a": {"units": satt("hPa")}}
    for k in range(rng.randint(2, 4)):
        r = rng.random()
        sh = ["lon", "lat"] + (["z"] if z and r < 0.6 else []) + (["time"] if k == 0 or r < 0.9 else [])
        if k > 1 and rng.random() < 0.3:
            sh = ["time"]
        t = rng.choice(["int", "float", "double", "short"])
        vs["v%d" % k] = {"t": t, "sh": sh, "d": [rng.randint(-300, 300) for _ in range(prod(dims[d]["len"] for d in sh))], "a": {}}
        if rng.random() < 0.4:
            vs["v%d" % k]["a"]["_FillValue"] = natt(t, -999)
            vs["v%d" % k]["d"] = [-999 if rng.random() < 0.1 else x for x in vs["v%d" % k]["d"]]
    return {"dims": dims, "vars": vs, "ga": {}}


def look(rng, drv, ids, n):
    """reads from any stage, in any order, some twice"""
    for _ in range(n):
        i = rng.choice(ids)
        o = drv.do({"op": "desc", "id": i})
        dims = desc_dims(o)
        vs = sorted(v for v in o["vars"] if all(d in dims for d in o["vars"][v]["sh"]))
        if not vs:
            continue
        v = rng.choice([x for x in vs if x[-2:-1] == "v"] or vs) if rng.random() < 0.7 else rng.choice(vs)
        c = {"op": "read", "id": i, "var": v, "mode": "raw", "scale": 1, "exact": 0, "ty": 0}
        un = [d for d in dims if o["dims"][d]["u"]]
        r = rng.random()
        if r < 0.4:
            c["sl"] = block(rng, dims, o["vars"][v]["sh"], 0.05)
        elif r < 0.7:
            c["pos"] = rng.randint(0, max(0, (dims[un[0]] if un else 1) - 1))
        for _ in range(rng.choice([1, 1, 1, 2])):
            drv.do(dict(c))


def axis(drv, i, v, o):
    if v not in o["vars"] or not o["vars"][v]["sh"] or o["vars"][v]["sh"][0] not in o["dims"]:
        return []
    r = drv.do({"op": "read", "id": i, "var": v, "mode": "raw", "scale": 1, "exact": 0, "ty": 0})
    return r["d"] if r["st"] == "ok" else []


def some(rng, l):
    return sorted(rng.sample(range(len(l)), rng.randint(1, len(l))))


def pipes(rng, drv, tier):
    t0 = rng.randint(2900, 3000)
    ds = base(rng, t0)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": ds})
    ids = ["s"]
    last = "s"
    state = {"lon": "lon", "lat": "lat", "time": "time", "z": "z"}
    if rng.random() < 0.25:
        ds2 = {"dims": {k: dict(d) for k, d in ds["dims"].items()}, "ga": {},
               "vars": {k: dict(v, d=[x + 1 if k[0] == "v" and x != -999 else x + 24 if k == "time" else x for x in v["d"]]) for k, v in ds["vars"].items()}}
        drv.do({"op": "src", "id": "s2", "kind": rng.choice(["mem", "store"]), "ds": ds2})
        drv.do({"op": "agg", "id": "a", "type": "joinExisting", "via": "direct", "srcs": ["s", "s2"], "dim": "", "vars": [], "coords": [], "ctype": ""})
        last = "a"
        ids += ["s2", "a"]
    states = {x: dict(state) for x in ids}
    for k in range(rng.randint(2, 6)):
        i = "p%d" % k
        if rng.random() < 0.3:      # another reader on top of one already used
            last = rng.choice(ids)
        state = dict(states[last])
        o = drv.do({"op": "desc", "id": last})
        if o["st"] != "ok":
            return
        dims = desc_dims(o)
        st = rng.choice(["extract", "extract", "tint", "interp", "vert", "proc", "ncml", "file"])
        if st == "extract":
            drv.do({"op": "extract", "id": i, "from": last})
            for _ in range(rng.randint(1, 2)):
                d = rng.choice(sorted(x for x in dims if dims[x]))
                if rng.random() < 0.5:
                    drv.do({"op": "ext", "id": i, "do": "set", "dim": d, "pos": some(rng, range(dims[d]))})
                else:
                    a = rng.randint(0, dims[d] - 1)
                    drv.do({"op": "ext", "id": i, "do": "range", "dim": d, "start": a, "size": rng.randint(1, dims[d] - a)})
        elif st == "tint":
            t = axis(drv, last, state["time"], o)
            if len(t) < 1 or o["vars"][state["time"]]["a"]["units"]["s"] not in UNITS:
                continue
            u = o["vars"][state["time"]]["a"]["units"]["s"]
            sec = sorted({(x * UNITS[u] + REFS[u]) for x in t})
            if len(sec) != len(t):
                continue
            drv.do({"op": "tint", "id": i, "from": last})
            l = [{"k": "t", "v": sec[j]} for j in some(rng, sec)]
            drv.do({"op": "tintchange", "id": i, "axis": state["time"], "list": l, "rel": "", "unit": TU, "text": ",".join(iso(e["v"]) for e in l) + ";unit=" + TU})
        elif st == "interp":
            x, y = axis(drv, last, state["lon"], o), axis(drv, last, state["lat"], o)
            if len(x) < 2 or len(y) < 2:
                continue
            drv.do({"op": "interp", "id": i, "from": last})
            drv.do({"op": "interpto", "id": i, "m": "nearestneighbor", "proj": LL, "xs": [x[j] for j in some(rng, x)], "ys": [y[j] for j in some(rng, y)], "q": 1, "r": 320,
                    "xu": "degree", "yu": "degree", "xt": "double", "yt": "double", "g": {"x": state["lon"], "y": state["lat"], "deg": 1}})
        elif st == "vert":
            z = axis(drv, last, state["z"], o)
            if "vert" in state or len(z) < 2:
                continue
            state["vert"] = 1
            drv.do({"op": "vert", "id": i, "from": last, "type": "pressure", "method": rng.choice(["linear", "nearestneighbor"])})
            # the specification knows the axes by these names
            drv.do({"op": "vertto", "id": i, "mode": "fixed", "levels": [z[j] for j in some(rng, z)], "name": "pressure", "vts": [{"kind": "p", "z": state["z"], "t": {}}],
                    "gx": state["lon"], "gy": state["lat"]})
            state["z"] = "pressure"
        elif st == "proc":
            c = [v for v in sorted(o["vars"]) if v[-2:-1] == "v" and o["vars"][v]["t"] != "short" and "_FillValue" not in o["vars"][v]["a"]]
            if not c:
                continue
            p = rng.sample(c, rng.randint(1, len(c)))
            cut = rng.randint(0, len(p))
            if drv.do({"op": "proc", "id": i, "from": last, "acc": p[:cut], "deacc": p[cut:]})["st"] != "ok":
                continue
        elif st == "ncml":
            doc = {"rm": [], "dims": [], "vars": [], "ga": [{"name": "title", "org": "", "v": satt("n%d" % k)}]}
            v = rng.choice([x for x in sorted(o["vars"]) if x[-2:-1] == "v"] or ["nix"])
            if v == "nix":
                continue
            doc["vars"].append({"name": "r" + v, "org": v, "type": "", "sh": [], "hassh": 0, "vals": [], "hasvals": 0, "atts": [{"name": "note", "org": "", "v": satt("x")}], "rmatts": []})
            if rng.random() < 0.4 and "r" + state["time"] not in dims:
                d = state["time"]
                doc["dims"].append({"name": "r" + d, "org": d, "len": -1, "u": "", "over": 0})
                doc["vars"].append({"name": "r" + d, "org": d, "type": "", "sh": [], "hassh": 0, "vals": [], "hasvals": 0, "atts": [], "rmatts": []})
                state["time"] = "r" + d
            if drv.do({"op": "ncml", "id": i, "from": last, "doc": doc})["st"] != "ok":
                return
        else:
            if any(n == 0 for n in dims.values()):
                continue
            if drv.do({"op": "write", "from": last, "file": "f%d" % k, "type": "netcdf4", "cfg": {}})["st"] != "ok":
                continue
            drv.do({"op": "open", "id": i, "file": "f%d" % k})
        ids.append(i)
        states[i] = state
        last = i
        look(rng, drv, ids, rng.randint(1, 2))
    look(rng, drv, ids, 4)
    look(rng, drv, [last], 2)
