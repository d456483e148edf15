from ..gen import *

FAMILIES = [("direct", 4000, 30000)]
MUST = ["read"]


def direct(rng, drv, tier):
    kind = rng.choice(["mem", "store", "netcdf3", "netcdf4"])
    ds = dataset(rng, types=NC3 if kind == "netcdf3" else ALL)
    o = drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})
    if o["st"] != "ok":
        return
    # attributes of files are another property's business
    dims = {n: d["len"] for n, d in ds["dims"].items()}
    for _ in range(6):
        v = rng.choice(sorted(ds["vars"]))
        sh = ds["vars"][v]["sh"]
        c = {"op": "read", "id": "s", "var": v, "mode": "raw"}
        r = rng.random()
        un = [d for d in dims if ds["dims"][d]["u"]]
        if r < 0.6:
            c["sl"] = block(rng, dims, sh)
        elif r < 0.85:
            n0 = dims[un[0]] if un else 1
            c["pos"] = rng.randint(0, n0 - 1) if rng.random() < 0.8 else rng.choice([n0, n0 + 1])
        drv.do(c)
    if rng.random() < 0.1:
        drv.do({"op": "read", "id": "s", "var": "nonesuch", "mode": "raw"})
