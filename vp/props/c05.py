from ..gen import *
import copy

FAMILIES = [("direct", 3000, 30000), ("files", 1200, 12000)]
MUST = ["agg", "read"]


def sources(rng, n, jtype, types):
    """n related datasets: shared dimensions, some variables missing or of another size in some"""
    hast = rng.random() < 0.85
    lens = {"x": rng.randint(1, 3), "y": rng.randint(1, 3)}
    protos = {}
    for k in range(rng.randint(1, 3)):
        sh = rng.choice([["x"], ["x", "y"], ["y"], []])
        t = rng.choice(types)
        a = {}
        if rng.random() < 0.4:
            a["_FillValue"] = natt(t, rng.randint(0, 100))
        if rng.random() < 0.3:
            a["units"] = satt("m")
        protos["v%d" % k] = (t, sh + (["t"] if hast and rng.random() < 0.75 else []), a)
    if hast and rng.random() < 0.8:
        protos["t"] = (rng.choice(["double", "int", "float"]) if "int" in types else "double", ["t"], {"units": satt("hours since 2000-01-01 00:00:00")})
    if rng.random() < 0.3:
        protos["x"] = ("int", ["x"], {})
    res = []
    for i in range(n):
        mine = {}
        ln = dict(lens)
        if rng.random() < 0.15:
            ln[rng.choice(["x", "y"])] = rng.randint(1, 4)
        ln["t"] = rng.randint(1, 3) if jtype != "union" or rng.random() < 0.3 else 2
        for v, (t, sh, a) in protos.items():
            if rng.random() < 0.15:
                continue
            if rng.random() < 0.06 and "t" in sh and len(sh) > 1:
                sh = [d for d in sh if d != "t"]      # not on the joined dimension here
            if v == "t":
                d = sorted(rng.sample(range(100), ln["t"]))
            else:
                d = vals(rng, t, prod(ln[q] for q in sh))
            mine[v] = {"t": t, "sh": sh, "a": copy.deepcopy(a), "d": d}
        if rng.random() < 0.3:
            t = rng.choice(types)
            sh = rng.choice([["x"], ["x", "y"], ["x", "t"] if hast else ["y"]])
            mine["w%d" % i] = {"t": t, "sh": sh, "a": {}, "d": vals(rng, t, prod(ln[q] for q in sh))}
        used = {d for v in mine.values() for d in v["sh"]}
        u = 1 if rng.random() < 0.93 else 0
        ds = {"dims": {d: {"len": ln[d], "u": 1 if d == "t" else 0} for d in ("x", "y", "t") if d in used}, "vars": mine,
              "ga": ({"title": satt("s%d" % i)} if rng.random() < 0.5 else {})}
        res.append(ds)
    return res


def known_dims(srcs):
    """joinNew: variables to join only use dimensions that the first source has"""
    return set(srcs[0]["dims"])


def run(rng, drv, kinds, via, types):
    jtype = rng.choice(["joinExisting", "joinExisting", "joinNew", "union"])
    n = rng.choice([1, 2, 2, 3, 4])
    srcs = sources(rng, n, jtype, types)
    if jtype != "union":
        # a dimension must not be new in one source and have another size in a later one (partial additions)
        pass
    kind = rng.choice(kinds)
    for i, s in enumerate(srcs):
        if drv.do({"op": "src", "id": "s%d" % i, "kind": kind, "ds": s})["st"] != "ok":
            return
    c = {"op": "agg", "id": "a", "type": jtype, "via": via, "srcs": ["s%d" % i for i in range(n)], "dim": "", "vars": [], "coords": [], "ctype": ""}
    if jtype == "joinNew":
        c["dim"] = "run"
        kd = known_dims(srcs)
        cand = sorted({v for s in srcs for v in s["vars"] if v not in ("x", "t") and all(set(q["vars"][v]["sh"]) <= kd for q in srcs if v in q["vars"])})
        c["vars"] = rng.sample(cand, rng.randint(0, len(cand))) if cand else []
    if via == "scan":
        c["names"] = sorted("f%02d.nc" % i for i in rng.sample(range(100), n))
        if rng.random() < 0.3:
            c["subdirs"] = 1
    if rng.random() < 0.5 and via != "scan" and jtype != "union":
        per = []
        for s in srcs:
            if jtype == "joinNew":
                per.append([rng.randint(0, 99)])
            else:
                per.append([rng.randint(0, 99) for _ in range(s["dims"]["t"]["len"])] if "t" in s["dims"] else [])
        c["percoord"] = per
        c["coords"] = [x for p in per for x in p]
        c["ctype"] = "double"
        if jtype == "joinExisting" and not any("t" in s["dims"] for s in srcs):
            c.pop("percoord")
            c["coords"] = []
    elif jtype == "joinNew" and via in ("ncml", "scan"):
        c["coords"] = ["location_%d" % i for i in range(n)]
        c["ctype"] = "strings"
    if via == "ncml" and rng.random() < 0.1:
        c["second"] = 1
    drv.do(c)
    reads(rng, drv, "a", 5)
    if rng.random() < 0.3:
        reads(rng, drv, "s%d" % rng.randrange(n), 1)
    if rng.random() < 0.25:
        # work on the aggregation
        drv.do({"op": "extract", "id": "e", "from": "a"})
        o = drv.do({"op": "desc", "id": "a"})
        if o.get("dims"):
            d = rng.choice(sorted(o["dims"]))
            n = o["dims"][d]["len"]
            drv.do({"op": "ext", "id": "e", "do": "set", "dim": d, "pos": sorted(rng.sample(range(n), rng.randint(min(1, n), n)))})
            reads(rng, drv, "e", 3)


def direct(rng, drv, tier):
    run(rng, drv, ["mem", "store"], "direct", ALL)


def files(rng, drv, tier):
    run(rng, drv, ["netcdf4", "netcdf3"], rng.choice(["ncml", "ncml", "scan"]), NC3)
