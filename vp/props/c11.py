import copy

from ..gen import *

FAMILIES = [("puts", 2600, 26000), ("fills", 3000, 30000), ("translated", 900, 9000)]
MUST = ["write", "rw", "put", "fill", "read"]
ASSUMPTIONS = ["values fit the type of the variable they are written to", "the file is not opened for writing twice at a time",
               "input and file use the same units; a file is filled through a handle that has not yet grown it",
               "the unlimited dimension comes first in the file"]
NAN = 2000000000
TYPES = ["netcdf3", "netcdf4", "netcdf4classic"]
UN = {"m": ["cm", "K"], "K": ["degC", "m"], "1": ["1", "m"]}


def target(rng, drv, ds, ty):
    drv.do({"op": "src", "id": "t", "kind": "store", "ds": ds})
    return drv.do({"op": "write", "from": "t", "file": "f", "type": ty, "cfg": {}}).get("st") == "ok"


def pack(rng, v):
    t = v["t"]
    if rng.random() < 0.5:
        v["a"]["_FillValue"] = natt(t, rng.choice([0, 3, 99, 7]))
    elif rng.random() < 0.15:
        v["a"]["missing_value"] = natt(t, rng.choice([0, 3, 99, 7]))
    if rng.random() < 0.3:
        v["a"]["scale_factor"] = natt(rng.choice(["double", "float"]), rng.choice([0.5, 0.25, 2, -1, 4]))
    if rng.random() < 0.3:
        v["a"]["add_offset"] = natt("double", rng.choice([0.5, -1, 3]) if t[0] != "u" else -3)


def puts(rng, drv, tier):
    ty = rng.choice(TYPES)
    ds = prune(dataset(rng, types=NC3 if ty != "netcdf4" else [t for t in ALL if t != "uint64"], maxlen=3, maxtot=30, unlim=0.75))
    for v in ds["vars"].values():
        pack(rng, v)
    if not target(rng, drv, ds, ty):
        return
    vs = sorted(ds["vars"])
    un = [d for d in ds["dims"] if ds["dims"][d]["u"]]
    for h in range(rng.choice([1, 1, 2])):
        drv.do({"op": "rw", "id": "h", "file": "f"})
        o = drv.do({"op": "desc", "id": "h"})
        if o.get("st") != "ok":
            return
        dims = desc_dims(o)
        for _ in range(rng.randint(1, 5)):
            n = rng.choice(vs)
            v = ds["vars"][n]
            c = {"op": "put", "id": "h", "var": n, "mode": rng.choice(["raw", "raw", "scaled", "unit"])}
            size = 1
            if rng.random() < 0.4:
                c["pos"] = rng.randint(0, dims[un[0]] - 1 + rng.choice([0, 0, 1, 2])) if un else 0
                for d in v["sh"]:
                    size *= 1 if d in un else dims[d]
            else:
                sl = {}
                for d in v["sh"]:
                    k = dims[d]
                    if rng.random() < 0.75:
                        s = rng.randint(0, k - 1)
                        z = rng.randint(1, k - s)
                        if d in un and rng.random() < 0.4:
                            s, z = rng.choice([(s, z + 1), (k, 1), (k, 2), (k + 1, 1), (0, k + 2)])
                        elif rng.random() < 0.07:
                            s, z = rng.choice([(k, 1), (0, k + 1), (k - 1, 2), (k + 1, 0), (0, 0)])
                        sl[d] = [s, z]
                    size *= sl[d][1] if d in sl else k
                c["sl"] = sl
            if rng.random() < 0.06:
                size += rng.choice([-1, 1, -size])
            size = max(0, size)
            if c["mode"] == "raw":
                c["t"] = v["t"] if rng.random() < 0.6 else rng.choice(["int", "double", "float", "short"])
                c["d"] = [rng.randint(0, 100) for _ in range(size)]
            else:
                # physical values whose stored form is a small number
                sc, of = [v["a"].get(k, {"m": [dv]})["m"][0] for k, dv in (("scale_factor", 1000), ("add_offset", 0))]
                if c["mode"] == "unit":
                    c["unit"] = rng.choice(UN.get(v["a"].get("units", {}).get("s"), ["m", "K"]))
                    c["d"] = [NAN if rng.random() < 0.15 else 1000 * rng.randint(0, 20) for _ in range(size)]
                    if v["t"] in ("char", "uchar", "ushort", "uint"):
                        c["mode"] = "scaled"
                        c.pop("unit")
                if c["mode"] == "scaled":
                    c["d"] = [NAN if rng.random() < 0.15 else rng.randint(0, 60) * sc + of + (rng.choice([0, 0, sc // 4, sc // 2])) for _ in range(size)]
            drv.do(c)
            if rng.random() < 0.3:
                w = rng.choice(vs)
                drv.do({"op": "read", "id": "h", "var": w, "mode": "raw"})
            if rng.random() < 0.15 and ty == "netcdf3":
                drv.do({"op": "sync", "id": "h"})
                drv.do({"op": "open", "id": "z", "file": "f"})
                reads(rng, drv, "z", 2, bad=0)
                drv.do({"op": "drop", "id": "z"})
        drv.do({"op": "drop", "id": "h"})
    drv.do({"op": "open", "id": "o", "file": "f"})
    reads(rng, drv, "o", 2)
    for n in vs:
        drv.do({"op": "read", "id": "o", "var": n, "mode": "raw"})


def small(v, rng):
    v["d"] = [x if x == NAN else abs(x) % 90 for x in v["d"]]


def other(rng, ds, classic):
    """an input with the coordinates of ds, some left out, reordered or new"""
    i = copy.deepcopy(ds)
    for d in list(i["dims"]):
        if rng.random() < 0.5:
            continue
        n = i["dims"][d]["len"]
        if d in i["vars"]:
            c = i["vars"][d]["d"]
            pick = rng.sample(c, rng.randint(1, n))
            if rng.random() < 0.5:
                pick.sort()
            if rng.random() < (0.5 if i["dims"][d]["u"] else 0.2):
                for k in range(rng.randint(1, 2)):
                    pick.insert(rng.randrange(len(pick) + 1), 70 + 3 * k + rng.choice([0, 0, 1]))
            i["vars"][d]["d"] = pick
            i["dims"][d]["len"] = len(pick)
        elif rng.random() < (0.6 if i["dims"][d]["u"] else 0.2):
            i["dims"][d]["len"] = rng.randint(1, 3)
    for n in list(i["vars"]):
        v = i["vars"][n]
        if n in i["dims"]:
            if rng.random() < 0.1:
                del i["vars"][n]
            elif rng.random() < 0.15:
                v["t"] = rng.choice(["int", "double", "short", "float"])
                v["a"].pop("_FillValue", None)
                v["a"].pop("missing_value", None)
            continue
        v["d"] = [rng.randint(0, 89) for _ in range(prod(i["dims"][d]["len"] for d in v["sh"]))]
        r = rng.random()
        if r < 0.1:
            del i["vars"][n]
            continue
        elif r < 0.2 and len(v["sh"]) > 1:
            v["sh"] = v["sh"][1:]
            v["d"] = [rng.randint(0, 89) for _ in range(prod(i["dims"][d]["len"] for d in v["sh"]))]
        if rng.random() < 0.35:
            v["t"] = rng.choice(NC3 if classic else [t for t in ALL if t != "uint64"])
            for k in ("_FillValue", "missing_value", "scale_factor", "add_offset"):
                v["a"].pop(k, None)
            pack(rng, v)
        elif rng.random() < 0.3 and "_FillValue" in v["a"]:
            v["a"]["_FillValue"] = natt(v["t"], rng.choice([0, 3, 99, 7, 8]))
        if v["t"] in ("float", "double") and rng.random() < 0.2:
            v["d"][rng.randrange(len(v["d"]))] = NAN
    if rng.random() < 0.2:
        v = copy.deepcopy(rng.choice(list(ds["vars"].values())))
        v["d"] = [1] * prod(i["dims"][d]["len"] for d in v["sh"])
        i["vars"]["extra"] = v
    return i


def distinct(ds):
    """no two positions with the same coordinate"""
    for d in ds["dims"]:
        if d in ds["vars"]:
            c = ds["vars"][d]["d"]
            for k in range(len(c)):
                while c[k] in c[:k]:
                    c[k] += 1
    return ds


def pair(rng, drv):
    ty = rng.choice(TYPES)
    ds = prune(dataset(rng, types=NC3 if ty != "netcdf4" else [t for t in ALL if t != "uint64"], maxlen=3, maxtot=24, unlim=0.75, coords=0.8))
    for n, v in ds["vars"].items():
        small(v, rng)
        if n in ds["dims"]:
            if rng.random() < 0.15:
                v["d"][rng.randrange(len(v["d"]))] = v["d"][0]
            if rng.random() < 0.3:
                rng.shuffle(v["d"])
        else:
            pack(rng, v)
    return ty, ds


def show(rng, drv, ds):
    drv.do({"op": "open", "id": "o", "file": "f"})
    drv.do({"op": "desc", "id": "o"})
    for n in sorted(ds["vars"]):
        drv.do({"op": "read", "id": "o", "var": n, "mode": "raw"})
    drv.do({"op": "drop", "id": "o"})


def fixsmall(ds):
    # scaled differences keep small stored values only if both packings are mild
    for v in ds["vars"].values():
        if v["t"] in ("char", "uchar", "ushort", "uint"):
            v["a"].pop("scale_factor", None)
            v["a"].pop("add_offset", None)
    return ds


def fills(rng, drv, tier):
    ty, ds = pair(rng, drv)
    fixsmall(ds)
    if not target(rng, drv, ds, ty):
        return
    cur = ds
    for k in range(rng.choice([1, 1, 2])):
        i = distinct(fixsmall(other(rng, cur, ty != "netcdf4")))
        for n, v in i["vars"].items():
            # into bytes and unsigned types only as they are
            o = ds["vars"].get(n)
            if o and o["t"] in ("char", "uchar", "ushort", "uint") and n not in ds["dims"] and o["t"] != v["t"]:
                v["a"] = {k: x for k, x in v["a"].items() if k not in ("scale_factor", "add_offset")}
                v["d"] = [x if x == NAN else x % 100 for x in v["d"]]
            if o and o["t"] not in ("float", "double"):
                v["d"] = [5 if x == NAN else x for x in v["d"]]
        drv.do({"op": "src", "id": "i", "kind": rng.choice(["mem", "store"]), "ds": prune(i)})
        drv.do({"op": "rw", "id": "h", "file": "f"})
        drv.do({"op": "fill", "from": "i", "id": "h", "tr": []})
        if rng.random() < 0.3:
            drv.do({"op": "read", "id": "h", "var": rng.choice(sorted(ds["vars"])), "mode": "raw"})
        drv.do({"op": "drop", "id": "h"})
        show(rng, drv, ds)


def translated(rng, drv, tier):
    ty, ds = pair(rng, drv)
    fixsmall(ds)
    # the file has a dimension m, the input perhaps a dimension q in its place
    fixed = [d for d in ds["dims"] if not ds["dims"][d]["u"]]
    i = copy.deepcopy(ds)
    m, q = rng.randint(1, 3), rng.randint(1, 3)
    ds["dims"]["m"] = {"len": m, "u": 0}
    i["dims"]["q"] = {"len": q, "u": 0}
    inq = rng.random() < 0.5
    outm = rng.random() < 0.75
    for n in list(ds["vars"]):
        if n in ds["dims"]:
            continue
        v, w = ds["vars"][n], i["vars"][n]
        if rng.random() < 0.85 and outm:
            v["sh"].insert(rng.randrange(len(v["sh"]) + (0 if any(ds["dims"][d]["u"] for d in v["sh"]) else 1)), "m")
        if rng.random() < 0.85 and inq:
            w["sh"].insert(rng.randrange(len(w["sh"]) + (0 if any(ds["dims"][d]["u"] for d in w["sh"]) else 1)), "q")
        v["d"] = [rng.randint(0, 99) for _ in range(prod(ds["dims"][d]["len"] for d in v["sh"]))]
        w["d"] = [rng.randint(0, 99) for _ in range(prod(i["dims"][d]["len"] for d in w["sh"]))]
    if rng.random() < 0.3 and outm:
        ds["vars"]["m"] = {"t": "int", "sh": ["m"], "d": list(range(m)), "a": {}}
    if rng.random() < 0.2:
        i2 = i["vars"]["q"] = {"t": "int", "sh": ["q"], "d": list(range(q)), "a": {}}
    prune(ds), prune(distinct(i))
    if not target(rng, drv, ds, ty):
        return
    one = lambda n: rng.choice([[rng.randint(0, n - 1)]] * 8 + [[n], [], [0, 0]])
    tr = [{"i": "q" if inq else "", "is": one(q) if inq else [], "o": "m" if outm else "", "os": one(m) if outm else []}]
    drv.do({"op": "src", "id": "i", "kind": rng.choice(["mem", "store"]), "ds": i})
    drv.do({"op": "rw", "id": "h", "file": "f"})
    drv.do({"op": "fill", "from": "i", "id": "h", "tr": tr})
    drv.do({"op": "drop", "id": "h"})
    show(rng, drv, ds)
