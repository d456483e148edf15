from ..gen import *

FAMILIES = [("packed", 3000, 30000), ("storage", 4000, 40000), ("logarithmic", 600, 6000)]
MUST = ["read", "conv"]
UNITS = ["m", "K", "hPa", "hours", "days", "1", "km", "degC", "cm"]
TO = {"m": ["cm", "m", "K"], "K": ["degC", "degF", "K"], "hPa": ["Pa", "m"], "hours": ["seconds"], "days": ["hours"], "1": ["percent"],
      "km": ["m"], "degC": ["K"], "cm": ["cm"]}


def packed_ds(rng, types=ALL):
    ds = dataset(rng, types=types, atts=False, coords=0.1, maxlen=3, maxtot=40)
    for v in ds["vars"].values():
        t = v["t"]
        n = len(v["d"])
        v["d"] = vals(rng, t, n, small=True) if rng.random() < 0.9 else v["d"]
        if t not in ("char", "uchar"):
            v["d"] = [max(-300, min(300, x)) if rng.random() < 0.9 else x for x in v["d"]]
        a = v["a"]
        r = rng.random()
        if r < 0.6:
            f = rng.choice(v["d"] + [0, 99]) if v["d"] else 0
            a[rng.choice(["_FillValue", "_FillValue", "missing_value"])] = natt(t if rng.random() < 0.95 else "double", f)
        if rng.random() < 0.3 and n:
            # values that equal the default fill value of the type
            dflt = {"char": -127, "uchar": 255, "short": -32767, "ushort": 65535}.get(t)
            if dflt is not None:
                v["d"][rng.randrange(n)] = dflt
        if t in ("float", "double") and rng.random() < 0.5 and n:
            v["d"][rng.randrange(n)] = 2000000000
        if rng.random() < 0.6:
            a["scale_factor"] = natt(rng.choice(["double", "float"]), rng.choice([0.5, 2, 0.25, 1, -1, 10, 0.125]))
        if rng.random() < 0.6:
            x = rng.choice([0.5, -3, 100, 273.15, 0])
            a["add_offset"] = natt("double" if x == 273.15 else rng.choice(["double", "float"]), x)
        if rng.random() < 0.8:
            a["units"] = satt(rng.choice(UNITS))
    return ds


def packed(rng, drv, tier):
    kind = rng.choice(["mem", "store", "store"])
    ds = packed_ds(rng)
    drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})
    ids = ["s"]
    if rng.random() < 0.3:
        drv.do({"op": "extract", "id": "e", "from": "s"})
        d = rng.choice(sorted(ds["dims"]))
        drv.do({"op": "ext", "id": "e", "do": "range", "dim": d, "start": 0, "size": rng.randint(1, ds["dims"][d]["len"])})
        ids.append("e")
    for i in ids:
        # an ill-typed fill value makes any use of it an error, block reads of raw values may or may not need it
        illtyped = any(v["a"].get(k, {"t": v["t"]})["t"] != v["t"] for v in ds["vars"].values() for k in ("_FillValue", "missing_value"))
        reads(rng, drv, i, 3, modes=("scaled",) if illtyped else ("scaled", "raw"))
        for _ in range(3):
            v = rng.choice(sorted(ds["vars"]))
            u = ds["vars"][v]["a"].get("units", {}).get("s")
            if u:
                drv.do({"op": "read", "id": i, "var": v, "mode": "unit", "unit": rng.choice(TO[u]), "scale": 1000, "exact": 0})


def logarithmic(rng, drv, tier):
    """units that are not linearly related: levels re a reference"""
    u, lo, hi = rng.choice([("lg(re 1 m)", -3, 6), ("lg(re 1 km)", -6, 3)])
    n = rng.randint(1, 8)
    t = rng.choice(["short", "int", "float", "double", "char"])
    sf, ao = rng.choice([(1, 0), (1, 0), (0.5, 0), (1, 1), (2, 0), (0.5, 1), (-1, 0)])
    want = [rng.randint(lo, hi) for _ in range(n)]
    d = [int((x - ao) / sf) for x in want]
    d = [x for x in d if lo <= x * sf + ao <= hi and (x * sf + ao) % 1 == 0] or [int(-ao / sf)]
    a = {"units": satt(u)}
    if (sf, ao) != (1, 0):
        a["scale_factor"], a["add_offset"] = natt("double", sf), natt("double", ao)
    if rng.random() < 0.6:
        a["_FillValue"] = natt(t, rng.choice(d))
    if t in ("float", "double") and rng.random() < 0.4:
        d[rng.randrange(len(d))] = 2000000000
    un = rng.random() < 0.5
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "netcdf4"]),
            "ds": {"dims": {"x": {"len": len(d), "u": int(un)}}, "vars": {"v": {"t": t, "sh": ["x"], "d": d, "a": a}}, "ga": {}}})
    for w in (["m", "km"] if u == "lg(re 1 m)" else ["m"]) + [u]:
        drv.do({"op": "read", "id": "s", "var": "v", "mode": "unit", "unit": w, "scale": 1000, "exact": 0})
    drv.do({"op": "read", "id": "s", "var": "v", "mode": "scaled", "scale": 1000, "exact": 0})


def storage(rng, drv, tier):
    for _ in range(3):
        t, nt = rng.choice(ALL), rng.choice(ALL)
        big = t not in ("char", "uchar", "short", "ushort", "float") and nt not in ("char", "uchar", "short", "ushort", "float", "int") and rng.random() < 0.5 and t != "int"
        mul = 1000000 if big else 1
        lo, hi = RANGE[t]
        nlo, nhi = RANGE[nt]
        if big:
            lo, hi = (0, 4000) if t == "uint" else (-4000 if not t.startswith("u") else 0, 4000)
            nlo, nhi = (0, 4000) if nt == "uint" else (-9000 if not nt.startswith("u") else 0, 9000)
        if t in ("float", "double", "int64", "int", "uint", "uint64") and not big:
            lo, hi = max(lo, -4000), min(hi, 4000)
        sf, nsf = rng.choice([8, 8, 4, 16, -8, 1, 32, 80]), rng.choice([8, 8, 4, 2, 1, 16, -8])
        ao, nao = rng.choice([0, 0, 4, 8, -20, 800]), rng.choice([0, 0, 4, -8, 80])
        if big:
            sf = nsf = 8
            ao = nao = 0
        fill, nfill = rng.randint(lo, hi), rng.randint(nlo, nhi)
        if rng.random() < 0.3:
            sf, nsf, ao, nao = 8, 8, 0, 0
            if rng.random() < 0.6 and nlo <= fill <= nhi:
                nfill = fill
        d = []
        for _ in range(rng.randint(1, 12)):
            x = rng.choice([fill, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(max(lo, -30), min(hi, 30))])
            y = (x * sf + ao - nao) / nsf
            if nlo <= y <= nhi:   # stay within what the new type can hold
                d.append(x)
            elif x == fill:
                d.append(x)
        if t in ("float", "double") and rng.random() < 0.5:
            d.append(2000000000)
        drv.do({"op": "conv", "t": t, "d": d, "mul": mul, "fill": fill, "sf": sf, "ao": ao, "nt": nt, "nfill": nfill, "nsf": nsf, "nao": nao})
