from ..gen import *

FAMILIES = [("acc", 3000, 30000)]
MUST = ["proc", "read"]
TYPES = ["short", "int", "float", "double", "int64"]


def source(rng):
    ds = dataset(rng, types=TYPES, maxtot=60, maxlen=4, coords=0.2, unlim=0.95, atts=False)
    for v in ds["vars"].values():
        v["d"] = [rng.randint(-999, 999) for _ in v["d"]] if v["t"] != "short" else [rng.randint(-500, 500) for _ in v["d"]]
        if v["t"] in ("float", "double") and v["d"] and rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                v["d"][rng.randrange(len(v["d"]))] = 2000000000
        if rng.random() < 0.2:
            v["a"]["units"] = satt("m")
    return ds


def acc(rng, drv, tier):
    ds = source(rng)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store"]), "ds": ds})
    vs = sorted(ds["vars"])
    last = "s"
    for k in range(rng.choice([1, 1, 2, 3])):
        pick = rng.sample(vs, rng.randint(1, len(vs)))
        if k and rng.random() < 0.6:
            # undo what was done before
            a, d = prev_d, prev_a
        else:
            cut = rng.randint(0, len(pick))
            a, d = pick[:cut], pick[cut:]
        if rng.random() < 0.03:
            a = a + ["nix"]
        new = "p%d" % k
        if drv.do({"op": "proc", "id": new, "from": last, "acc": a, "deacc": d})["st"] != "ok":
            break
        prev_a, prev_d = a, d
        last = new
        # single positions in any order, some repeatedly
        o = drv.do({"op": "desc", "id": new})
        un = [x for x in o["dims"] if o["dims"][x]["u"]]
        n = o["dims"][un[0]]["len"] if un else 1
        for _ in range(rng.randint(2, 6)):
            v = rng.choice((a + d) or vs)
            if v in o["vars"]:
                drv.do({"op": "read", "id": new, "var": v, "mode": "raw", "pos": rng.randrange(n)})
        reads(rng, drv, new, 3)
        if rng.random() < 0.3:
            reads(rng, drv, "s", 2)
