from ..gen import *

FAMILIES = [("roundtrips", 2500, 25000)]
MUST = ["save", "detect", "read", "desc"]
ASSUMPTIONS = ["names without spaces (they separate the dimensions in an NcML shape)", "texts without control characters"]
NAN = 2000000000
TEXTS = ["a", "two words", "x" * 60, "a;b,c", "a<b", "a&b", "say \"x\"", "it's", "x > y", "&amp;", "<!-- -->", "]]>", " lead", "trail ", "a  b", "100 %"]


def roundtrips(rng, drv, tier):
    ds = dataset(rng, types=ALL, maxlen=4, maxtot=60, scalar=0.15)
    for v in ds["vars"].values():
        t, n = v["t"], len(v["d"])
        if t in ("int", "double", "uint", "int64", "uint64") and rng.random() < 0.5:
            v["d"][rng.randrange(n)] = rng.choice([1234567, 123456789, 1899999999, 16777217, 100001])
        if t == "float" and rng.random() < 0.5:
            v["d"][rng.randrange(n)] = rng.choice([1234567, 16777215, -9999999, 100001])
        if t in ("float", "double") and rng.random() < 0.3:
            v["d"][rng.randrange(n)] = NAN
        if rng.random() < 0.4:
            v["a"]["_FillValue"] = natt(t, rng.choice([0, 99]))
        if rng.random() < 0.4:
            tt = rng.choice([x for x in ALL if x in ("short", "int", "int64", "float", "double")])
            v["a"]["many"] = {"t": tt, "m": [rng.randint(0, 100) * 1000 if tt not in ("float", "double") else rng.choice([500, 125, 1234567, -1500, 1001, 1250]) for _ in range(rng.randint(1, 4))]}
        if rng.random() < 0.5:
            v["a"]["text"] = satt(rng.choice(TEXTS))
        if rng.random() < 0.3:
            v["a"]["texts"] = {"t": "strings", "l": [rng.choice(TEXTS + ["", "a|b", "c,d", "e#f", "g h", "i"]) for _ in range(rng.randint(1, 4))]}
            if v["a"]["texts"]["l"] == [""]:    # an empty text is no attribute there
                v["a"]["texts"]["l"] = ["i"]
    prune(ds)
    if rng.random() < 0.1:      # no records
        for n, d in ds["dims"].items():
            if d["u"]:
                d["len"] = 0
                for v in ds["vars"].values():
                    if n in v["sh"]:
                        v["d"] = []
    kind = rng.choice(["mem", "store", "netcdf4"])
    if kind != "store" and rng.random() < 0.3:
        v = rng.choice(sorted(ds["vars"]))
        ds["vars"]["names"] = {"t": "strings", "sh": list(ds["vars"][v]["sh"]), "d": [rng.choice(TEXTS + ["", "b", "c,d"]) for _ in ds["vars"][v]["d"]], "a": {}}
    if rng.random() < 0.5:
        ds["ga"]["title"] = satt(rng.choice(TEXTS))
    drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})
    drv.do({"op": "save", "from": "s", "type": rng.choice(["ncml", ""]), "file": "r.ncml", "ext": "ncml"})
    o = drv.do({"op": "detect", "id": "r", "file": "r.ncml", "ext": "ncml", "type": "", "url": 0})
    if o.get("st") == "ok":
        reads(rng, drv, "r", 5)
        if rng.random() < 0.3:
            drv.do({"op": "save", "from": "r", "type": "ncml", "file": "q.ncml", "ext": "ncml"})
            drv.do({"op": "detect", "id": "q", "file": "q.ncml", "ext": "ncml", "type": "ncml", "url": 0})
            reads(rng, drv, "q", 3)
