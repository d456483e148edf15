from ..gen import *

FAMILIES = [("plain", 2500, 25000), ("configured", 4500, 40000)]
MUST = ["write", "open", "read"]
ASSUMPTIONS = ["dimensions have at least one element (a fixed dimension of length 0 cannot be stored)", "stored values fit the chosen type"]
NAN = 2000000000
TYPES = ["netcdf3", "nc3", "netcdf4", "nc4", "netcdf4classic", "nc4c"]


def src(rng, classic):
    types = NC3 if classic else ALL
    ds = dataset(rng, types=types, maxlen=4, maxtot=60, scalar=0.15)
    for v in ds["vars"].values():
        t, n = v["t"], len(v["d"])
        if rng.random() < 0.5:
            v["a"]["_FillValue" if rng.random() < 0.8 else "missing_value"] = natt(t, rng.choice(v["d"] + [0, 99]) if t != "char" else rng.choice([0, 99, -1]))
            for k in ("_FillValue", "missing_value"):
                if k in v["a"] and abs(v["a"][k]["m"][0]) > 1900000:
                    v["a"][k] = natt(t, 7)
        if t in ("float", "double") and rng.random() < 0.3:
            v["d"][rng.randrange(n)] = NAN
        if rng.random() < 0.2:
            v["a"]["many"] = natt(rng.choice(NC3), *[rng.randint(-100, 100) for _ in range(rng.randint(2, 4))])
        if rng.random() < 0.2:
            v["a"]["text"] = satt(rng.choice(["", "a", "two words", "x" * 60, "a;b,c"]))
    return ds


def plain(rng, drv, tier):
    ty = rng.choice(TYPES)
    ds = src(rng, ty not in ("netcdf4", "nc4") and rng.random() < 0.9)
    kind = rng.choice(["mem", "store"])
    if kind == "mem" and rng.random() < 0.3:
        # texts: in lists, and as values
        W = ["", "a", "two words", "x" * 60, "a;b,c", "a  b "]
        for a in [v["a"] for v in ds["vars"].values()] + [ds["ga"]]:
            if rng.random() < 0.4:
                a["texts"] = {"t": "strings", "l": [rng.choice(W) for _ in range(rng.choice([1, 1, 2, 3]) if ty in ("netcdf4", "nc4") else rng.choice([1, 1, 1, 2]))]}
        if rng.random() < (0.6 if ty in ("netcdf4", "nc4") else 0.1):
            v = ds["vars"][rng.choice(sorted(ds["vars"]))]
            ds["vars"]["names"] = {"t": "strings", "sh": list(v["sh"]), "d": [rng.choice(W) for _ in v["d"]], "a": {}}
    drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})
    if drv.do({"op": "write", "from": "s", "file": "a", "type": ty, "cfg": {}}).get("st") != "ok":
        return
    drv.do({"op": "open", "id": "o", "file": "a"})
    reads(rng, drv, "o", 4)
    r = rng.random()
    if r < 0.3:
        # a copy of the copy, over an existing file
        drv.do({"op": "write", "from": "o", "file": "b", "type": "netcdf4", "cfg": {}})
        drv.do({"op": "open", "id": "p", "file": "b"})
        reads(rng, drv, "p", 3)
    elif r < 0.5:
        drv.do({"op": "drop", "id": "o"})
        ds2 = src(rng, True)
        drv.do({"op": "src", "id": "s2", "kind": "store", "ds": ds2})
        drv.do({"op": "write", "from": "s2", "file": "a", "type": rng.choice(TYPES), "cfg": {}})
        drv.do({"op": "open", "id": "o", "file": "a"})
        reads(rng, drv, "o", 3)


UN = {"m": ["cm", "K"], "K": ["degC", "m"], "1": ["percent"], "hPa": ["Pa"], "km": ["m"]}


def small(rng, v):
    """values that fit any type after any of the changes below"""
    v["d"] = [abs(x) % 11 for x in v["d"]]
    for k in ("_FillValue", "missing_value"):
        if k in v["a"]:
            v["a"][k] = natt(v["t"], rng.choice([0, 3, 7, 99]))


def configured(rng, drv, tier):
    ty = rng.choice(TYPES)
    ft = rng.choice(["", "", "netcdf3", "netcdf3_64bit", "netcdf4", "netcdf4classic"])
    eff = ft or ty
    ds = src(rng, eff not in ("netcdf4", "nc4"))
    vs, dims = sorted(ds["vars"]), sorted(ds["dims"])
    cfg = {"ft": ft, "comp": rng.choice([-1, -1, 0, 3, 13]), "auto": rng.choice([1, 1, 0]), "rm": [], "vars": [], "dims": [], "atts": []}
    for _ in range(rng.choice([0, 0, 1, 2])):
        cfg["rm"].append(rng.choice([["attribute", rng.choice(["title", "none"])], ["variable", rng.choice(vs + ["none"])], ["dimension", rng.choice(dims + ["none"])]]))
    used = set()
    for n in rng.sample(vs, rng.randint(0, len(vs))):
        v = ds["vars"][n]
        if ["variable", n] in cfg["rm"] and rng.random() < 0.8:
            continue
        e = {"name": n, "newname": "", "type": "", "rmatts": [], "atts": [], "comp": rng.choice([-1, -1, 0, 5])}
        if rng.random() < 0.35 and n not in dims:
            e["newname"] = rng.choice(["new_" + n, "w", "q"])
        if rng.random() < 0.3 and n not in dims:
            small(rng, v)
            e["type"] = rng.choice(NC3 if eff not in ("netcdf4", "nc4") else ALL)
            t = e["type"]
            for k in ("_FillValue", "missing_value"):
                if k in v["a"]:
                    if rng.random() < 0.2 and "int64" not in t:
                        e["rmatts"].append(k)
                    else:
                        e["atts"].append({"name": k, "newname": "", "v": natt(t, rng.choice([99, 99, 7, 3]))})
            if not any(k in v["a"] for k in ("_FillValue", "missing_value")) and rng.random() < 0.5:
                e["atts"].append({"name": "_FillValue", "newname": "", "v": natt(t, rng.choice([99, 99, 7]))})
        t = e["type"] or v["t"]
        if rng.random() < 0.3 and n not in dims:
            small(rng, v)
            e["atts"].append({"name": "scale_factor", "newname": "", "v": natt(rng.choice(["double", "float"]), rng.choice([0.5, 0.25, 1, 2]))})
        if rng.random() < 0.2 and n not in dims:
            small(rng, v)
            e["atts"].append({"name": "add_offset", "newname": "", "v": natt("double", rng.choice([0.5, -1, 3]) if t[0] != "u" else -3)})
        u = v["a"].get("units", {}).get("s")
        if rng.random() < 0.2 and u in UN and not e["type"] and t in ("short", "int", "float", "double"):
            small(rng, v)
            e["atts"].append({"name": "units", "newname": "", "v": satt(rng.choice(UN[u]))})
        if rng.random() < 0.15:
            e["atts"].append({"name": rng.choice(["n", "none"] + ([] if e["atts"] or e["type"] or v["a"].get("units", {}).get("s") == "1" else ["units"])), "newname": "renamed", "v": {}})
        if rng.random() < 0.15:
            e["rmatts"].append(rng.choice(["n", "text", "none"]))
        cfg["vars"].append(e)
    for d in dims:
        if rng.random() < 0.25:
            cfg["dims"].append({"name": d, "newname": rng.choice(["", "new_" + d, "new_" + d, "dd"]), "chunk": rng.choice([0, 0, 1, 2, 3])})
    if rng.random() < 0.2:
        cfg["atts"].append({"name": rng.choice(["title", "none", "hist"]), "newname": rng.choice(["", "t2"]), "v": rng.choice([{}, satt("new"), natt("int", 5)])})
    if rng.random() < 0.05:
        cfg["dims"].append({"name": "none", "newname": "x9", "chunk": 0})
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store"]), "ds": ds})
    if drv.do({"op": "write", "from": "s", "file": "a", "type": ty, "cfg": cfg, "cfgfile": rng.choice([0, 0, 1])}).get("st") != "ok":
        return
    drv.do({"op": "open", "id": "o", "file": "a"})
    reads(rng, drv, "o", 5)
    if rng.random() < 0.2:
        reads(rng, drv, "s", 2)
