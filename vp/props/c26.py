from ..gen import *
from .c12 import src, TYPES

FAMILIES = [("faults", 4000, 40000), ("readfaults", 2500, 25000), ("ncmlfaults", 800, 8000)]
ENV = {"OMP_NUM_THREADS": "1"}  # the driver forks
MUST = ["writefault", "readfault", "open", "read"]
ASSUMPTIONS = ["faults are failing write calls of the process and failing reads of the source"]


def faults(rng, drv, tier):
    ty = rng.choice(TYPES)
    ds = src(rng, ty not in ("netcdf4", "nc4"))
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    k = 0
    for _ in range(rng.randint(1, 3)):
        k += 1
        what = rng.choice(["write", "write", "write", "read"])
        r = drv.do({"op": "writefault", "from": "s", "file": "f%d" % k, "type": ty, "what": what, "n": rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(4, 60)]),
                    "once": rng.choice([0, 0, 1]), "env": 0})
        if r.get("done") == 1:
            drv.do({"op": "open", "id": "o", "file": "f%d" % k})
            drv.do({"op": "desc", "id": "o"})
            for n in sorted(ds["vars"]):
                drv.do({"op": "read", "id": "o", "var": n, "mode": "raw"})
            drv.do({"op": "drop", "id": "o"})
    if rng.random() < 0.3:
        # and writing works again afterwards
        drv.do({"op": "write", "from": "s", "file": "g", "type": ty, "cfg": {}})
        drv.do({"op": "open", "id": "o", "file": "g"})
        reads(rng, drv, "o", 3)


def readfaults(rng, drv, tier):
    ty = rng.choice(TYPES)
    ds = src(rng, ty not in ("netcdf4", "nc4"))
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    if drv.do({"op": "write", "from": "s", "file": "g", "type": ty, "cfg": {}}).get("st") != "ok":
        return
    for _ in range(rng.randint(2, 5)):
        drv.do({"op": "readfault", "file": "g", "at": rng.choice(["open", "read"]), "var": rng.choice(sorted(ds["vars"])), "n": rng.choice([1, 1, 2, rng.randint(1, 12), rng.randint(4, 60)]),
                "once": rng.choice([0, 0, 1]), "env": 0})


def ncmlfaults(rng, drv, tier):
    """the same for NcML documents"""
    ds = src(rng, False)
    for v in ds["vars"].values():
        v["a"] = {}
        if len(v["d"]) > 3 and rng.random() < 0.5:
            v["a"]["long"] = satt("x" * rng.choice([100, 3000, 9000, 20000]))
    prune(ds)
    ds["ga"] = {}
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    for k in range(rng.randint(1, 3)):
        f = "f%d.ncml" % k
        r = drv.do({"op": "writefault", "from": "s", "file": f, "type": "ncml", "what": rng.choice(["write", "write", "read"]), "n": rng.randint(1, 5), "once": rng.choice([0, 0, 1]), "env": 0})
        if r.get("done") == 1:
            drv.do({"op": "detect", "id": "o", "file": f, "ext": "ncml", "type": "", "url": 0})
            reads(rng, drv, "o", 3)
