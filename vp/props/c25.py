from ..gen import *

FAMILIES = [("globs", 1500, 15000), ("opens", 1000, 10000), ("joins", 500, 5000)]
MUST = ["glob", "save", "detect", "putfile", "globopen", "read"]
ASSUMPTIONS = ["file names are valid UTF-8 without line breaks; no symbolic links"]
NAMES = ["a", "b", "ab", "a.nc", "b.nc", "ab.nc", "a-b.nc", "a+b.nc", "a(b).nc", "x.ncml", ".h", ".h.nc", "a b.nc", "anc", "[a].nc", "a$", "a^", "a|b", "a{1}", "2024", "20240101.nc", "20240102.nc", "aa", "nc", "A.nc", "a.b.nc"]
DIRS = ["", "", "a", "b", "ab", "a/b", "b/a", "a/b/a", "d.nc", "2024/01", "2024/02", "2024", "a-b"]


def code(s):
    return [ord(c) for c in s]


def pattern(rng, files):
    p = rng.choice(files)
    r = rng.random()
    if r < 0.1:
        return p
    if r < 0.2:
        return rng.choice(["*", "**", "*/*", "**/*", "**.nc", "*.nc", "*/*.nc", "**/a*", "?", "??", "a*", "a/**", "a?b*", "**b.nc", "20*/**.nc", "*.*", "b/*/*"])
    out = ""
    i = 0
    while i < len(p):
        r = rng.random()
        if r < 0.12:
            out += "*" if not out.endswith("*") else ""
            i += rng.randint(0, 3)
        elif r < 0.2:
            out += "?" if not out.endswith("*") else ""
            i += 1
        elif r < 0.26 and not out.endswith("*"):
            out += "**"
            i += rng.randint(0, 6)
        else:
            out += p[i]
            i += 1
    return out if out and not out.startswith("/") and "//" not in out and "***" not in out else "**"


def globs(rng, drv, tier):
    for _ in range(3):
        files = sorted({"/".join(x for x in (rng.choice(DIRS), rng.choice(NAMES)) if x) for _ in range(rng.randint(1, 10))})
        dirs = {"/".join(f.split("/")[:i]) for f in files for i in range(1, f.count("/") + 1)}
        files = [f for f in files if f not in dirs]
        rng.shuffle(files)
        extra = [d for d in rng.sample(DIRS[2:], 2) if not any(f == d or d.startswith(f + "/") for f in files)] if rng.random() < 0.4 else []
        g = pattern(rng, files)
        drv.do({"op": "glob", "files": [code(f) for f in files], "dirs": [code(d) for d in extra], "g": code(g), "rel": 0 if "/" in g and rng.random() < 0.7 else rng.choice([0, 1]), "env": {}})


NC = ["netcdf", "nc", "nc4", "netcdf4", "nc3", "netcdf3", "nc4c", "netcdf4classic"]
TYPES = ["", "", "", "netcdf", "nc", "nc4", "netcdf4", "nc3", "netcdf3", "nc4c", "netcdf4classic", "ncml", "null", "grb", "xyz", "felt"]


def small(rng, k=0):
    n = rng.randint(1, 3)
    return {"dims": {"t": {"len": n, "u": 1}, "x": {"len": 2, "u": 0}}, "ga": {"title": satt("t%d" % k)},
            "vars": {"t": {"t": "double", "sh": ["t"], "d": [10 * k + i for i in range(n)], "a": {"units": satt("hours since 2000-01-01 00:00:00")}},
                     "v": {"t": rng.choice(["float", "int", "short"]) if k == 0 else "float", "sh": ["x", "t"], "d": [100 * k + rng.randint(0, 9) for _ in range(2 * n)], "a": {}}}}


def opens(rng, drv, tier):
    drv.do({"op": "src", "id": "s", "kind": "mem", "ds": small(rng)})
    names = []
    for k in range(rng.randint(1, 4)):
        ext = rng.choice(["nc", "nc", "nc4", "ncml", "dat", "", "cdf", "grb", "NC", "Ncml", "xml"])
        f = "f%d" % k + ("." + ext if ext else "")
        r = rng.random()
        if r < 0.65 or not names:
            o = drv.do({"op": "save", "from": "s", "type": rng.choice(TYPES[:13]) if r < 0.6 else rng.choice(TYPES), "file": f, "ext": ext.lower()})
            if o.get("st") != "ok":
                continue
            t = drv.events[-1][0]["type"]
            names.append((f, ext.lower(), t not in ("ncml", "null") and (t in NC or ext.lower() in ("nc", "nc4"))))
        elif r < 0.85 and any(n[2] for n in names if len(n) > 2):
            ref = rng.choice([n for n in names if len(n) > 2 and n[2]])
            drv.do({"op": "putfile", "file": f, "kind": "ncml", "ref": ref[0]})
            names.append((f, ext.lower()))
        else:
            drv.do({"op": "putfile", "file": f, "kind": "text", "n": rng.choice([0, 1, 3, 6, 7, 8, 100])})
            names.append((f, ext.lower()))
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(names)
            drv.do({"op": "detect", "id": "r", "file": n[0], "ext": n[1], "type": rng.choice(TYPES), "url": 0})
            o = drv.do({"op": "desc", "id": "r"}) if drv.events[-1][1].get("st") == "ok" else None
            if o and o.get("st") == "ok":
                drv.do({"op": "read", "id": "r", "var": "v", "mode": "raw"})


def joins(rng, drv, tier):
    n = rng.randint(1, 4)
    J = "J%d" % rng.randrange(10 ** 9)
    ds = ["", "a/", "b/", "b/c/"]
    fs = sorted({rng.choice(ds) + "%s%d.nc" % (rng.choice("pq"), rng.randint(0, 9)) for _ in range(n)}, key=lambda f: f.replace("/", "\0"))
    order = list(range(len(fs)))
    rng.shuffle(order)
    for k in order:
        drv.do({"op": "src", "id": "s%d" % k, "kind": "mem", "ds": small(rng, k + 1)})
        drv.do({"op": "save", "from": "s%d" % k, "type": "nc4", "file": J + "/" + fs[k], "ext": "nc"})
    pats = {"J/**.nc": lambda f: True, "J/*.nc": lambda f: "/" not in f, "J/b/**.nc": lambda f: f.startswith("b/"), "J/?/*.nc": lambda f: f.count("/") == 1, "J/**/p*.nc": lambda f: "/" in f and f.split("/")[-1][0] == "p"}
    for g in rng.sample(sorted(pats), 2):
        hit = [f for f in fs if pats[g](f)]
        if not hit:
            continue
        o = drv.do({"op": "globopen", "id": "r", "type": rng.choice(["", "netcdf", "nc"]), "g": J + g[1:], "files": [J + "/" + f for f in hit]})
        if o.get("st") == "ok":
            reads(rng, drv, "r", 2)
