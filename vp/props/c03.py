from ..gen import *

FAMILIES = [("chain", 2500, 25000)]
MUST = ["ext.range", "ext.set", "ext.se", "ext.keep", "read"]


def reduce_some(rng, drv, rid, o, n):
    for _ in range(n):
        dims = desc_dims(o)
        r = rng.random()
        if not dims:
            return
        d = rng.choice(sorted(dims)) if rng.random() < 0.96 else "nonesuch"
        ln = dims.get(d, 3)
        if r < 0.3:
            st = rng.randint(0, max(0, ln))
            c = {"op": "ext", "id": rid, "do": "range", "dim": d, "start": st, "size": rng.randint(0 if rng.random() < 0.1 else 1, max(1, ln - st))}
            if rng.random() < 0.15:
                c["start"], c["size"] = rng.choice([(0, ln + 1), (ln, 1), (ln + 1, 0), (-1, 1), (1, -1), (0, -1), (ln, 0)])
        elif r < 0.65:
            k = rng.randint(1, max(1, ln))
            c = {"op": "ext", "id": rid, "do": "set", "dim": d, "pos": sorted(rng.sample(range(max(ln, 1)), k))}
            if rng.random() < 0.1:
                c["pos"] = rng.choice([[], [ln], [0, ln], [ln + 1], [-1]])
        elif r < 0.8:
            st = rng.randint(0, max(0, ln - 1))
            c = {"op": "ext", "id": rid, "do": "se", "dim": d, "start": st, "end": rng.choice([0, -1, st + 1, ln - 1, max(1, ln - 2), -(ln - st)])}
            if rng.random() < 0.1:
                c["start"], c["end"] = rng.choice([(ln + 1, 0), (0, ln), (ln, -1), (2, 1), (3, 1)])
        elif r < 0.9:
            c = {"op": "ext", "id": rid, "do": "rm", "var": rng.choice(sorted(o["vars"]) + ["nonesuch"])}
        else:
            k = sorted(o["vars"])
            c = {"op": "ext", "id": rid, "do": "keep", "keep": rng.sample(k, rng.randint(0, len(k))) + (["nonesuch"] if rng.random() < 0.3 else [])}
        drv.do(c)


def chain(rng, drv, tier):
    kind = rng.choice(["mem", "mem", "store", "store", "netcdf4"])
    ds = dataset(rng, maxlen=5, maxtot=100, atts=kind != "netcdf4")
    if kind == "netcdf4":
        prune(ds)
    if drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})["st"] != "ok":
        return
    ids = ["s"]
    for k in range(rng.choice([1, 1, 2, 3])):
        i = "e%d" % k
        frm = rng.choice(ids)
        drv.do({"op": "extract", "id": i, "from": frm})
        ids.append(i)
        o = {"dims": ds["dims"], "vars": ds["vars"]} if kind == "netcdf4" and not k else drv.do({"op": "desc", "id": i})
        reduce_some(rng, drv, i, o, rng.randint(1, 3))
        reads(rng, drv, i, 3)
    # the source is unaffected, and an outer extractor sees later changes of the inner only through its own view
    reads(rng, drv, "s", 2)
