from ..gen import *

FAMILIES = [("masks", 4500, 45000)]
MUST = ["quality", "read", "desc"]
ASSUMPTIONS = ["a status variable has the unlimited dimension only if the checked variable has it, and no larger slices; statuses do not refer to each other in circles"]
TYPES = ["char", "uchar", "short", "ushort", "int", "uint", "float", "double"]


def toks(rng, pool):
    r = rng.random()
    n = lambda x: {"k": "n", "v": x}
    if r < 0.6:
        return [n(rng.choice(pool)) for _ in range(rng.randint(1, 4))]
    if r < 0.95:
        a, st = rng.choice(pool), rng.choice([-3, -2, -1, 1, 1, 2, 3, 4])
        l = [n(a), n(a + st), {"k": "dots"}, n(a + st * rng.randint(1, 6) + rng.choice([0, 0, 0, 1, -1]))]
        if rng.random() < 0.3:
            l.append(n(rng.choice(pool)))
        return l
    return [n(1), {"k": "dots"}, n(4)] if rng.random() < 0.5 else [n(1), n(2), {"k": "dots"}]


def status_atts(rng, t, pool, a):
    if rng.random() < 0.4:
        a["_FillValue"] = natt(t, rng.choice(pool))
    r = rng.random()
    lo, hi = sorted((rng.choice(pool), rng.choice(pool)))
    if r < 0.15:
        a["valid_range"] = natt(t, lo, hi)
    elif r < 0.3:
        a["valid_min"] = natt(t, lo)
    elif r < 0.45:
        a["valid_max"] = natt(t, hi)
    elif r < 0.55:
        a["valid_min"], a["valid_max"] = natt(t, lo), natt(t, hi)


def masks(rng, drv, tier):
    names = ["x", "y", "z", "t"]
    order = sorted(rng.sample(range(4), rng.randint(1, 4)))
    order = [names[i] for i in order]
    dims = {d: {"len": rng.randint(1, 3), "u": 0} for d in order}
    if rng.random() < 0.6:
        dims[order[-1]]["u"] = 1
    vs = {}
    for k in range(rng.randint(1, 3)):
        sh = [d for d in order if rng.random() < 0.85]
        t = rng.choice(TYPES)
        vs["v%d" % k] = {"t": t, "sh": sh, "d": [rng.randint(0, 99) for _ in range(prod(dims[d]["len"] for d in sh))], "a": {}}
        if rng.random() < 0.5:
            vs["v%d" % k]["a"]["_FillValue"] = natt(t, rng.choice([-9 if t[0] != "u" else 100, 101]))
        if rng.random() < 0.8:
            vs["v%d" % k]["a"]["standard_name"] = satt("name%d" % k)
    base = sorted(vs)
    ext = {"dims": {d: dict(x) for d, x in dims.items()}, "vars": {}, "ga": {}}
    for k, v in enumerate(base):
        for where, tag in ((vs, "s%d"), (ext["vars"], "e%d")):
            if rng.random() < (0.7 if where is vs else 0.3):
                sh = list(vs[v]["sh"])
                un = [d for d in sh if dims[d]["u"]]
                r = rng.random()
                if r < 0.3:
                    sh = sh[:rng.randint(0, len(sh))]       # fewer dimensions
                elif r < 0.36 and len(sh) > 1:
                    sh = sh[1:]
                elif r < 0.4 and not un:
                    sh = sh[::-1]
                t = rng.choice(TYPES)
                pool = list(range(0 if t[0] == "u" else rng.choice([0, -3]), rng.choice([3, 6, 9])))
                s = {"t": t, "sh": sh, "d": [rng.choice(pool) for _ in range(prod(dims[d]["len"] for d in sh))], "a": {}}
                status_atts(rng, t, pool, s["a"])
                if where is vs and rng.random() < 0.6:
                    s["a"]["standard_name"] = satt("name%d status_flag" % k)
                    if rng.random() < 0.8:
                        s["a"]["flag_values"] = natt(t, *sorted(rng.sample(pool, rng.randint(1, min(4, len(pool))))))
                where[tag % k] = s
    used = {d for v in vs.values() for d in v["sh"]}
    ds = {"dims": {d: x for d, x in dims.items() if d in used}, "vars": vs, "ga": {}}
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "netcdf4"]), "ds": ds})
    used = {d for v in ext["vars"].values() for d in v["sh"]}
    ext["dims"] = {d: x for d, x in ext["dims"].items() if d in used}
    drv.do({"op": "src", "id": "m", "kind": "netcdf4", "ds": ext})
    for rnd in range(rng.choice([1, 1, 2])):
        cfg, did = [], set()
        todo = [v for v in sorted(vs) if rng.random() < 0.6]
        if rng.random() < 0.03:
            todo.append("nix")
        for v in todo:
            cand = []
            k = v[-1]
            if v[0] == "v":
                cand += [("s" + k, "")] * ("s" + k in vs) * 3 + [("e" + k, "m")] * ("e" + k in ext["vars"]) * 2
                cand += [(w, "") for w in sorted(vs) if w < v and w[0] == "v" or w[0] == "s" and w[1] < k]
            cand += [(v, "")] * (v in vs)
            if rng.random() < 0.02:
                cand = [("nix", "")]
            if not cand:
                continue
            st, src = rng.choice(cand)
            sds = ext["vars"] if src else vs
            # outside of what the specification is about: more slices of the status than of the variable
            if v in vs and st in sds and any(dims[d]["u"] for d in sds[st]["sh"]) and not any(dims[d]["u"] for d in vs[v]["sh"]):
                continue
            # nor a status whose slice is larger than that of the variable (the library warns and lets pass)
            if v in vs and st in sds:
                size = lambda sh: prod(dims[d]["len"] for d in sh if not dims[d]["u"])
                if size(vs[v]["sh"]) % size(sds[st]["sh"]):
                    continue
            pool = (sds[st]["d"] if st in sds else [1]) or [1]
            use = rng.choice(["", "all", "highest", "lowest", "min", "max"] + (["nonsense"] if rng.random() < 0.05 else []))
            e = {"var": v, "status": st if rng.random() < 0.98 else "", "src": src, "use": use, "arg": rng.choice(pool) + rng.choice([0, 0, 1, -1]),
                 "vals": toks(rng, pool) if use == "" and rng.random() < 0.97 else [], "fill": [rng.choice([7, 111, 120])] if rng.random() < 0.4 else []}
            if v not in vs and not e["fill"]:
                continue
            cfg.append(e)
        auto = rng.choice(["", "", "all", "highest", "lowest", "values"])
        if rng.random() < 0.03:
            auto = "nonsense"
        # automatic rules have no check of shapes; keep to those that fit
        for k, v in enumerate(base):
            s = vs.get("s%d" % k)
            if s and "flag_values" in s["a"] and s["sh"] != vs[v]["sh"][:len(s["sh"])] and auto != "nonsense":
                auto = ""
            if s and auto != "" and any(dims[d]["u"] for d in s["sh"]) and not any(dims[d]["u"] for d in vs[v]["sh"]):
                auto = ""
        for s in vs:    # empty lists of values are not asked for
            pass
        c = {"op": "quality", "id": "q", "from": "s", "auto": auto, "autovals": [{"k": "n", "v": x} for x in rng.sample(range(8), rng.randint(1, 4))], "cfg": cfg}
        if drv.do(c)["st"] != "ok":
            continue
        if rng.random() < 0.3:
            drv.do({"op": "desc", "id": "q"})
        for _ in range(rng.randint(2, 6)):
            v = rng.choice(sorted(vs) if rng.random() < 0.7 else base)
            i = "q" if rng.random() < 0.85 else "s"
            r = {"op": "read", "id": i, "var": v, "mode": "raw", "ty": 0}
            x = rng.random()
            if x < 0.35:
                r["sl"] = block(rng, {d: dims[d]["len"] for d in dims}, vs[v]["sh"], 0)
                r["sl"] = {d: [a, n] for d, (a, n) in r["sl"].items() if n > 0}
            elif x < 0.7:
                r["pos"] = rng.randint(0, max([dims[d]["len"] for d in dims if dims[d]["u"]] + [1]) - 1)
            drv.do(r)
