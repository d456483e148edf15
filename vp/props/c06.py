from ..gen import *
import copy

FAMILIES = [("reconf", 4000, 40000)]
MUST = ["ncml", "read"]
TYPES = ["char", "short", "int", "int64", "float", "double"]
UTYPES = TYPES + ["uchar", "ushort", "uint", "uint64"]


def attv(rng):
    if rng.random() < 0.5:
        return satt(rng.choice(["abc", "m", "a & b", "1 2", "<x>"]))
    t = rng.choice(TYPES)
    return natt(t, *[rng.randint(-50, 50) for _ in range(rng.choice([1, 1, 2, 3]))])


def att_edits(rng, have):
    res = []
    names = sorted(have) + ["newatt", "other"]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        e = {"name": rng.choice(names), "org": "", "v": {}}
        r = rng.random()
        if r < 0.5:
            e["org"] = rng.choice(names)
        if r < 0.1 or r > 0.5:
            e["v"] = attv(rng)
            if rng.random() < 0.3:
                e["content"] = 1
        if e["name"] in ("_FillValue", "scale_factor", "add_offset", "missing_value") or e["org"] in ("_FillValue", "scale_factor", "add_offset", "missing_value"):
            continue
        res.append(e)
    return res


def repackable(v, src_v, t, new):
    """do the values stay within what the new type can hold"""
    def m(a, n, d):
        return a[n]["m"][0] if n in a else d
    s, o, ns, no = m(src_v["a"], "scale_factor", 1000), m(src_v["a"], "add_offset", 0), m(new, "scale_factor", 1000), m(new, "add_offset", 0)
    lo, hi = RANGE[t]
    return all(lo <= (x * s + o - no) / ns <= hi for x in src_v["d"])


def source(rng):
    ds = dataset(rng, types=TYPES, maxtot=40, maxlen=3, coords=0.4)
    for v in ds["vars"].values():
        v["d"] = [max(-100, min(100, x)) for x in v["d"]]
        if v["t"] in ("short", "int", "double") and rng.random() < 0.3 and len(v["sh"]) > 0:
            v["a"]["_FillValue"] = natt(v["t"], rng.choice(v["d"] or [7]))
            if rng.random() < 0.5:
                v["a"]["scale_factor"] = natt("double", rng.choice([0.5, 2, 10]))
                v["a"]["add_offset"] = natt("double", rng.choice([0.5, -3, 100]))
        if rng.random() < 0.3:
            v["a"]["c"] = satt("q")
    if rng.random() < 0.2:
        for v in ds["vars"].values():
            v["d"] = [abs(x) for x in v["d"]]
            v["a"] = {k: a for k, a in v["a"].items() if k not in ("add_offset", "_FillValue")}
    if rng.random() < 0.5:
        ds["ga"]["history"] = satt("h")
    return ds


def mkdoc(rng, ds):
    doc = {"rm": [], "dims": [], "vars": [], "ga": []}
    dims, vs = sorted(ds["dims"]), sorted(ds["vars"])
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["variable", "variable", "attribute", "dimension", "group", "nonsense"] if rng.random() < 0.15 else ["variable", "attribute"])
        n = rng.choice({"variable": vs + ["nix"], "attribute": ["title", "history", "nix"], "dimension": [d for d in dims if any(d in v["sh"] for v in ds["vars"].values())][:1] + ["nix"]}.get(k, ["g"]))
        doc["rm"].append([k, n])
    if any(k == "dimension" and n != "nix" for k, n in doc["rm"]):
        doc["rm"] = [x for x in doc["rm"] if x[0] != "variable"]
    gone = {n for k, n in doc["rm"] if k == "variable"}
    ren = {}
    taken = set(dims)
    for d in dims:
        if rng.random() < 0.3:
            # to a new name; sometimes one that another dimension has just given up, or the own name
            new = rng.choice(["d_" + d, "d_" + d, d] + [x for x in dims if x in ren and ren[x] != x and x not in ren.values()])
            if new in taken and new != d and new not in ren:
                continue
            e = {"name": new, "org": d, "len": -1, "u": "", "over": 1 if rng.random() < 0.1 and new not in taken else 0}
            doc["dims"].append(e)
            ren[d] = new
            if rng.random() < 0.08 and new != d:
                # renamed once more
                doc["dims"].append({"name": new + "2", "org": new, "len": -1, "u": "", "over": 0})
                ren[d] = new + "2"
            taken.add(ren[d])
    if rng.random() < 0.3:
        doc["dims"].append({"name": "nd", "org": "", "len": rng.randint(1, 3), "u": "", "over": 0})
    names_after = {d: ren.get(d, d) for d in dims}
    if rng.random() < 0.3:
        un = [d for d in dims if ds["dims"][d]["u"]]
        if un:
            doc["dims"].append({"name": names_after[un[0]], "org": rng.choice(["", ""]), "len": -1, "u": rng.choice(["false", "false", "true", "maybe"] if rng.random() < 0.1 else ["false"]), "over": 0})
        elif dims:
            # slowest dimension of every variable that has it
            cand = [d for d in dims if all(d not in v["sh"] or v["sh"][-1] == d for v in ds["vars"].values())]
            if cand:
                d = rng.choice(cand)
                e = [x for x in doc["dims"] if x["org"] == d and x["name"] == names_after[d]]
                if e:
                    e[0]["u"] = "true"
                else:
                    doc["dims"].append({"name": names_after[d], "org": "", "len": -1, "u": "true", "over": 0})
    cur = [v for v in vs if v not in gone]
    for v in rng.sample(vs, rng.randint(0, len(vs))):
        src = ds["vars"][v]
        e = {"name": v, "org": "", "type": "", "sh": [], "hassh": 0, "vals": [], "hasvals": 0, "atts": [], "rmatts": []}
        if rng.random() < 0.4:
            e["org"] = v
            e["name"] = rng.choice(["n_" + v, "n_" + v, v, rng.choice(vs)])
        if rng.random() < 0.25 and src["sh"]:
            keep = sorted(rng.sample(range(len(src["sh"])), rng.randint(0, len(src["sh"]))))
            e["sh"] = [names_after[src["sh"][k]] for k in keep]
            e["hassh"] = 1
        e["rmatts"] = [a for a in src["a"] if a not in ("_FillValue", "scale_factor", "add_offset") and rng.random() < 0.2]
        e["atts"] = att_edits(rng, src["a"])
        if rng.random() < 0.3:
            e["type"] = rng.choice(UTYPES)
            new = {k: a for k, a in src["a"].items() if k in ("scale_factor", "add_offset")}
            if "_FillValue" in src["a"]:
                r = rng.random()
                if r < 0.85:
                    e["atts"].append({"name": "_FillValue", "org": "", "v": natt(e["type"], rng.randint(-100, 100))})
            if rng.random() < 0.4:
                a = natt("double", rng.choice([0.5, 0.25, 1, 2]))
                e["atts"].append({"name": "scale_factor", "org": "", "v": a})
                new["scale_factor"] = a
            if not repackable(v, src, e["type"], new) or (e["type"][0] == "u" and not all(repackable(q, w, e["type"], dict(w["a"], **new)) and repackable(q, dict(w, a={}), e["type"], {}) for q, w in ds["vars"].items())):
                e["type"] = ""
                e["atts"] = []
        if rng.random() < 0.15:
            sh = e["sh"] if e["hassh"] else src["sh"]
            inv = {b: a for a, b in names_after.items()}
            n = prod(ds["dims"][inv.get(d, d)]["len"] for d in sh)
            if rng.random() < 0.5:
                e["hasvals"] = 1
                e["vals"] = vals(rng, "char", max(1, n + (rng.choice([-1, 1]) if rng.random() < 0.15 else 0)))
            elif n > 0:
                e["hasvals"] = 2
                e["vals"] = [rng.randint(-20, 20), rng.randint(-3, 3)]
        if any(x["name"] == e["name"] for x in doc["vars"]):
            continue
        doc["vars"].append(e)
        if rng.random() < 0.08 and e["org"] and e["name"] != v:
            # rename what has just been renamed
            f = dict(copy.deepcopy(e), org=e["name"], name="twice", atts=[], rmatts=[], hassh=0, sh=[], hasvals=0, vals=[], type="")
            doc["vars"].append(f)
    if rng.random() < 0.3:
        d = rng.choice(["nd"] + list(names_after.values()))
        sh = [d] if any(x["name"] == d for x in doc["dims"]) or d in names_after.values() else []
        n = None
        for x in doc["dims"]:
            if x["name"] == d and x["len"] >= 0:
                n = x["len"]
        inv = {b: a for a, b in names_after.items()}
        n = 1 if not sh else (n if n is not None else ds["dims"][inv[d]]["len"])
        e = {"name": rng.choice(["fresh", d]), "org": "", "type": rng.choice(UTYPES), "sh": sh, "hassh": 1 if sh else 0, "vals": [], "hasvals": 0,
             "atts": [{"name": "units", "org": "", "v": satt("m")}] if rng.random() < 0.5 else [], "rmatts": []}
        if rng.random() < 0.7:
            e["hasvals"] = rng.choice([1, 2])
            e["vals"] = vals(rng, "char", n) if e["hasvals"] == 1 else [rng.randint(-9, 9), rng.randint(-3, 3)]
        if not any(x["name"] == e["name"] for x in doc["vars"]) and e["name"] not in ds["vars"]:
            doc["vars"].append(e)
    doc["ga"] = att_edits(rng, ds["ga"])
    for e in doc["vars"]:
        if e["type"].startswith("u"):
            e["atts"] = [a for a in e["atts"] if a["name"] != "_FillValue"] + [{"name": "_Unsigned", "org": "", "v": satt("true")}]
            e["vals"] = [abs(x) for x in e["vals"]]
    rng.shuffle(doc["vars"]) if rng.random() < 0.3 else None
    return doc


def reconf(rng, drv, tier):
    ds = source(rng)
    kind = rng.choice(["mem", "store", "store"])
    drv.do({"op": "src", "id": "s", "kind": kind, "ds": ds})
    c = {"op": "ncml", "id": "n", "from": "s", "doc": mkdoc(rng, ds)}
    o = drv.do(c)
    if o["st"] == "ok":
        reads(rng, drv, "n", 6, bad=0.05)
        if rng.random() < 0.3:
            reads(rng, drv, "s", 2)
