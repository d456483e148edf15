from ..gen import *

FAMILIES = [("fixed", 2200, 30000), ("other", 1200, 16000)]
MUST = ["vert", "vertto", "read", "desc"]
ASSUMPTIONS = ["levels are whole numbers of hPa or m; values differ by multiples of the distance of their levels (by multiples of 2520 for log), so that results are whole numbers",
               "barometric conversions between pressure and height are not covered"]
TYPES = ["pressure", "height", "altitude", "depth"]
METHODS = ["linear", "linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "nearestneighbor", "log", "loglog"]
NEW = {"pressure": "pressure", "height": "height", "altitude": "height_above_msl", "depth": "depth"}


def quarters(rng, n, lo=0, hi=8):
    return [rng.randint(lo, hi) for _ in range(n)]


def zaxis(rng, ds, kind, z, nz, sfc, log, units=""):
    """adds dimension z with a vertical coordinate; returns vt and a function co -> level (hPa or m)"""
    ds["dims"][z] = {"len": nz, "u": 0}
    V = ds["vars"]
    vt = {"kind": kind, "z": z, "t": {}}

    def add(name, sh, d, t="double", **a):
        V[name] = {"t": t, "sh": sh, "d": d, "a": {k: (satt(x) if isinstance(x, str) else x) for k, x in a.items()}}
        return name
    if kind in ("p", "height", "altitude", "depth"):
        if log:
            l = [2 ** e for e in rng.sample(range(1, 11), nz)]
        else:
            l = rng.sample(range(1, 1000 if kind == "p" else 300), nz) if rng.random() < 0.7 else [rng.randint(-40, 300) for _ in range(nz)]
            if kind == "p":
                l = [abs(x) + 1 for x in l]
        r = rng.random()
        if r < 0.45:
            l.sort()
        elif r < 0.9:
            l.sort(reverse=True)
        t = rng.choice(["int", "float", "double"])
        f = 1
        if kind == "p":
            u = rng.choice(["hPa", "hPa", "Pa"])
            f = 100 if u == "Pa" else 1
            a = {"units": u, "standard_name": "air_pressure"} if rng.random() < 0.5 else {"units": u}
        else:
            a = {"units": rng.choice(["m", "m", "km"]) if all(x % 1 == 0 for x in l) and t == "double" and False else "m",
                 "positive": "down" if kind == "depth" else "up",
                 "standard_name": {"height": "height", "altitude": rng.choice(["altitude", "height_above_msl"]), "depth": "depth"}[kind]}
        add(z, [z], [x * f for x in l], t, **a)
        return vt, lambda co: l[co[z]]
    q = natt("double", 0.25)
    hv = sfc["v"]          # surface values: function of co
    sn = {"sigma": "atmosphere_sigma_coordinate", "ap": "atmosphere_hybrid_sigma_pressure_coordinate", "a": "atmosphere_hybrid_sigma_pressure_coordinate",
          "hh": "atmosphere_hybrid_height_coordinate", "s1": "ocean_s_coordinate_g1", "s2": "ocean_s_coordinate_g2", "none": "no_such_coordinate"}[kind]
    b = sorted(rng.sample(range(0, 12), nz)) if rng.random() < 0.8 else quarters(rng, nz)
    if rng.random() < 0.4:
        b.reverse()
    sep = rng.choice([": ", ":", " : "])
    terms = {}

    def fin(fn, positive):
        vt["t"] = terms
        ft = " ".join("%s%s%s" % (k, sep, v) for k, v in sorted(terms.items()))
        V[z]["a"].update({"standard_name": satt(sn), "formula_terms": satt(ft), "positive": satt(positive)})
        return vt, fn
    if kind in ("sigma", "none"):
        add(z, [z], b, "short", units="1", scale_factor=q)
        pt = rng.randint(0, 40) * 4
        add(z + "top", [], [pt * 100], "double", units="Pa") if rng.random() < 0.5 else add(z + "top", [], [pt], "float", units="hPa")
        terms.update(sigma=z, ps=sfc["name"], ptop=z + "top")
        return fin(lambda co: None if hv(co) is None else pt + b[co[z]] * (hv(co) - pt) // 4, "down")
    add(z, [z], list(range(nz)), "int", units="1")
    if kind in ("ap", "a"):
        add(z + "b", [z], b, "short", units="1", scale_factor=q)
        if kind == "ap":
            ap = [rng.randint(0, 150) for _ in range(nz)]
            u, f = rng.choice([("hPa", 1), ("Pa", 100)])
            add(z + "ap", [z], [x * f for x in ap], "double", units=u)
            terms.update(ap=z + "ap", b=z + "b", ps=sfc["name"])
            if rng.random() < 0.3:
                add(z + "p0", [], [100000], "double", units="Pa")
                terms["p0"] = z + "p0"
            return fin(lambda co: None if hv(co) is None else ap[co[z]] + b[co[z]] * hv(co) // 4, "down")
        a = quarters(rng, nz, 0, 3)
        p0 = rng.randint(1, 250) * 4
        add(z + "a", [z], a, "short", units="1", scale_factor=q)
        add(z + "p0", [], [p0 * 100], "double", units="Pa")
        terms.update(a=z + "a", b=z + "b", ps=sfc["name"], p0=z + "p0")
        return fin(lambda co: None if hv(co) is None else (a[co[z]] * p0 + b[co[z]] * hv(co)) // 4, "down")
    if kind == "hh":
        a = [rng.randint(0, 200) for _ in range(nz)]
        V[z]["d"] = a
        V[z]["t"] = "double"
        V[z]["a"]["units"] = satt("m")
        add(z + "b", [z], b, "short", units="1", scale_factor=q)
        terms.update(a=z, b=z + "b", orog=sfc["name"])
        # the axis must not look like a height of its own
        return fin(lambda co: None if hv(co) is None else a[co[z]] + b[co[z]] * hv(co) // 4, "up")
    # ocean: s and C are negative quarters
    s = [-x for x in sorted(rng.sample(range(0, 5), min(nz, 5)))] + [-4] * max(0, nz - 5)
    C = [-x for x in sorted(rng.choices(range(0, 5), k=nz))]
    hc = rng.randint(0, 20) * 4
    if kind == "s2":
        hc = 0 if rng.random() < 0.3 or not sfc["const"] else sfc["const"]
    V[z].update(t="short", d=s)
    V[z]["a"]["scale_factor"] = q
    add(z + "C", [z], C, "short", units="1", scale_factor=q)
    add(z + "hc", [], [hc], "double", units="m")
    terms.update(s=z, C=z + "C", depth=sfc["name"], depth_c=z + "hc")
    if rng.random() < 0.3:
        add(z + "eta", sfc["sh"], [0] * sfc["n"], "float", units="m")
        terms["eta"] = z + "eta"
        vt["eta"] = 1
    if kind == "s2":
        # h / (h + hc) * (hc s + h C): whole numbers where h = hc
        return fin(lambda co: None if hv(co) is None else -(hc * s[co[z]] + hv(co) * C[co[z]]) * hv(co) // (4 * (hv(co) + hc)), "up")
    return fin(lambda co: None if hv(co) is None else -(hc * s[co[z]] + (hv(co) - hc) * C[co[z]]) // 4, "up")


def surface(rng, ds, name, sh, lo, hi, miss, units, f, **a):
    n = prod(ds["dims"][d]["len"] for d in sh)
    d = [4 * rng.randint(lo, hi) for _ in range(n)]
    for i in range(n):
        if rng.random() < miss:
            d[i] = None
    lens = [ds["dims"][x]["len"] for x in sh]

    def v(co):
        o, m = 0, 1
        for k, x in enumerate(sh):
            o += co.get(x, 0) * m
            m *= lens[k]
        return d[o]
    ds["vars"][name] = {"t": rng.choice(["int", "float", "double"]), "sh": sh, "d": [-32767 if x is None else x * f for x in d],
                        "a": {"units": satt(units), "_FillValue": None, **{k: satt(x) for k, x in a.items()}}}
    ds["vars"][name]["a"]["_FillValue"] = natt(ds["vars"][name]["t"], -32767)
    return {"name": name, "v": v, "sh": sh, "n": n}


KINDS = ["p", "p", "p", "height", "altitude", "depth", "sigma", "sigma", "ap", "ap", "a", "hh", "s1", "s2", "none"]
FIT = {"p": "pressure", "height": "height", "altitude": "altitude", "depth": "depth", "sigma": "pressure", "ap": "pressure", "a": "pressure", "hh": "altitude", "s1": "depth",
       "s2": "depth", "none": "pressure"}


def grid(rng):
    ds = {"dims": {}, "vars": {}, "ga": {}}
    nt = rng.choice([0, 0, 1, 2, 3])
    ds["dims"]["x"] = {"len": rng.randint(1, 3), "u": 0}
    ds["dims"]["y"] = {"len": rng.randint(1, 3), "u": 0}
    ds["vars"]["x"] = {"t": "double", "sh": ["x"], "d": list(range(ds["dims"]["x"]["len"])), "a": {"standard_name": satt("longitude"), "units": satt("degrees_east")}}
    ds["vars"]["y"] = {"t": "double", "sh": ["y"], "d": [50 + i for i in range(ds["dims"]["y"]["len"])], "a": {"standard_name": satt("latitude"), "units": satt("degrees_north")}}
    if nt:
        ds["dims"]["t"] = {"len": nt, "u": 1 if rng.random() < 0.6 else 0}
        ds["vars"]["t"] = {"t": "double", "sh": ["t"], "d": list(range(nt)), "a": {"standard_name": satt("time"), "units": satt("hours since 2000-01-01 00:00:00")}}
    return ds


def shapes(rng, ds, z):
    """orders of the dimensions of a field; an unlimited dimension stays last"""
    sh = ["x", "y", z]
    if rng.random() < 0.25:
        rng.shuffle(sh)
    if "t" in ds["dims"] and rng.random() < 0.85:
        if ds["dims"]["t"]["u"] or rng.random() < 0.7:
            sh.append("t")
        else:
            sh.insert(rng.randint(0, 3), "t")
    return sh


def coords(ds, sh):
    """coordinates in storage order, first dimension fastest"""
    lens = [ds["dims"][d]["len"] for d in sh]
    for o in range(prod(lens)):
        co = {}
        r = o
        for d, n in zip(sh, lens):
            co[d] = r % n
            r //= n
        yield co


def field(rng, ds, name, sh, z, level, method):
    """values whose differences are multiples of the distances of the levels they stand on"""
    t = rng.choice(["int", "float", "double"])
    nz = ds["dims"][z]["len"]
    cols = {}
    d, low = [], []
    loglog = method == "loglog"
    for co in coords(ds, sh):
        key = tuple((k, v) for k, v in sorted(co.items()) if k != z)
        if key not in cols:
            lev = []
            for k in range(nz):
                x = level(dict(co, **{z: k}))
                lev.append(0 if x is None else x)
            order = sorted(range(nz), key=lambda k: lev[k])
            v = {}
            cur = rng.randint(-300, 300) * (2520 if method == "log" else 1)
            for j, k in enumerate(order):
                if j and not loglog:
                    if method == "log":
                        cur = rng.randint(-30, 30) * 2520
                    else:
                        cur += rng.randint(-6, 6) * (lev[k] - lev[order[j - 1]])
                v[k] = cur
            # several layers on one level hold the same value
            cols[key] = v, {x: rng.random() for x in lev}, lev
        d.append(cols[key][0][co[z]])
        low.append(cols[key][1][cols[key][2][co[z]]] < 0.1)
    a = {}
    if rng.random() < 0.4:
        a["_FillValue"] = natt(t, -32767)
        miss = -32767
    else:
        miss = {"int": -2147483647}.get(t)
    if miss is not None and rng.random() < 0.5 and (t != "int" or "_FillValue" in a):
        d = [miss if m else x for x, m in zip(d, low)]
    elif t != "int" and rng.random() < 0.3:
        d = [2000000000 if m else x for x, m in zip(d, low)]
    if rng.random() < 0.15:
        a["valid_min"] = natt(t, rng.randint(-100, 0))
    if rng.random() < 0.15:
        a["valid_max"] = natt(t, rng.randint(0, 200))
    ds["vars"][name] = {"t": t, "sh": sh, "d": d, "a": a}


def surfaces(rng, ds, kind):
    sh = ["x", "y"] + (["t"] if "t" in ds["dims"] and rng.random() < 0.5 else [])
    if rng.random() < 0.15 and sh == ["x", "y"]:
        sh = ["y", "x"]
    miss = rng.choice([0, 0, 0.15])
    if kind in ("sigma", "ap", "a", "none"):
        u, f = rng.choice([("hPa", 1), ("Pa", 100)])
        return surface(rng, ds, "ps", sh, 40, 260, miss, u, f)
    if kind == "hh":
        return surface(rng, ds, "orog", sh, 0, 60, miss, "m", 1)
    if kind in ("s1", "s2"):
        k = 2 * rng.randint(1, 30)
        s = surface(rng, ds, "bottom", sh, *((k, k) if kind == "s2" else (1, 60)), miss, "m", 1)
        s["const"] = 4 * k if kind == "s2" else 0
        return s
    return None


def topo(rng, ds):
    sh = ["x", "y"]
    s = surface(rng, ds, "topo", sh, 0, 40, rng.choice([0, 0.1]), "m", 1, standard_name="surface_altitude")
    return s["v"]


def level_in(rng, ds, vt, level, type, top, gh):
    """levels of the type asked for, where the generator can tell"""
    k = vt["kind"]
    if type == "altitude" and k == "height" and top:
        return lambda co: None if level(co) is None or top(co) is None else level(co) + top(co)
    if type == "height" and k in ("altitude", "hh") and top:
        return lambda co: None if level(co) is None or top(co) is None else level(co) - top(co)
    return level


def reads17(rng, drv, rid, vs, n):
    o = drv.do({"op": "desc", "id": rid})
    if o.get("st") != "ok":
        return
    dims = desc_dims(o)
    for v in vs:
        if v not in o["vars"]:
            continue
        drv.do({"op": "read", "id": rid, "var": v, "mode": "raw", "scale": 1, "exact": 0})
    for _ in range(n):
        v = rng.choice(sorted(x for x in o["vars"] if x not in ("dz", "dw") and all(d in dims for d in o["vars"][x]["sh"])))
        c = {"op": "read", "id": rid, "var": v, "mode": "raw", "scale": 1, "exact": 0}
        un = [d for d in o["dims"] if o["dims"][d]["u"]]
        if rng.random() < 0.5:
            c["sl"] = {d: [s, max(1, n)] for d, (s, n) in block(rng, dims, o["vars"][v]["sh"], 0).items()}
        else:
            c["pos"] = rng.randint(0, max(0, (dims[un[0]] if un else 1) - 1))
        drv.do(c)


def usable(kind, type, ds):
    """pairs with a known outcome: no barometric formula"""
    if type == "pressure":
        return kind not in ("height", "altitude", "hh")
    if type in ("height", "altitude"):
        return kind not in ("p", "sigma", "ap", "a")
    return True


def levels_field(rng, ds, name, sh, z, dir, top):
    """a field that holds the levels: pressure or altitude"""
    nz = ds["dims"][z]["len"]
    cols, d = {}, []
    for co in coords(ds, sh):
        key = tuple((k, v) for k, v in sorted(co.items()) if k != z)
        if key not in cols:
            cols[key] = rng.sample(range(20, 1000), nz)
            r = rng.random()
            if r < 0.9:
                cols[key].sort(reverse=r < 0.5)
        d.append(cols[key][co[z]])
    u, f = {"airp": rng.choice([("hPa", 1), ("Pa", 100)])}.get(dir, ("m", 1))
    ds["vars"][name] = {"t": rng.choice(["int", "float", "double"]), "sh": sh, "d": [x * f for x in d],
                        "a": {"units": satt(u), "standard_name": satt("air_pressure" if dir == "airp" else "geopotential_height")}}

    def level(co):
        x = cols[tuple((k, v) for k, v in sorted(co.items()) if k != z)][co[z]]
        if dir != "ghminus":
            return x
        t = top(co) if top else None
        return None if t is None else x - t
    return level


def build(rng, kinds, type, method, direct=(None, None)):
    ds = grid(rng)
    log = method in ("log", "loglog")
    top = topo(rng, ds) if rng.random() < 0.5 else None
    vts, fields = [], []
    sfc = None
    lv = []
    for i, kind in enumerate(kinds):
        if kind in ("sigma", "ap", "a", "none", "hh", "s1", "s2") and (sfc is None):
            sfc = surfaces(rng, ds, kind)
        z = "z" if i == 0 else "w"
        nz = rng.randint(2, 5) if rng.random() < 0.93 else 1
        vt, level = zaxis(rng, ds, kind, z, nz, sfc, log)
        vts.append(vt)
        level = level_in(rng, ds, vt, level, type, top, None)
        sh0 = shapes(rng, ds, z)
        dir = direct[i]
        if dir:
            level = levels_field(rng, ds, "d" + z, sh0, z, dir, top)
        lv.append(level)
        for k in range(rng.randint(1, 2)):
            nm = "f%d%d" % (i, k)
            sh = shapes(rng, ds, z)
            while k and dir and set(sh) != set(sh0):
                sh = shapes(rng, ds, z)
            field(rng, ds, nm, sh if k else sh0, z, level, method)
            fields.append(nm)
    if rng.random() < 0.5:
        n = ds["dims"]["x"]["len"] * ds["dims"]["y"]["len"]
        ds["vars"]["flat"] = {"t": "int", "sh": ["x", "y"], "d": vals(rng, "int", n), "a": {}}
    return ds, vts, fields, lv


def fixed(rng, drv, tier):
    method = rng.choice(METHODS)
    while True:
        kind = rng.choice(["p", "height", "altitude", "depth"] if method == "log" else KINDS)
        type = FIT[kind] if rng.random() < 0.75 else rng.choice(TYPES)
        dir = [None]
        if method != "log" and kind != "none" and rng.random() < 0.25:
            if type == "pressure":
                dir = ["airp"]
            elif type in ("height", "altitude") and kind in ("p", "sigma", "ap", "a"):
                dir = ["gh" if type == "altitude" else "ghminus"]
        if dir[0] or (usable(kind, type, None) and not (method == "log" and type != FIT[kind])):
            break
    ds, vts, fields, lv = build(rng, [kind], type, method, dir)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store"]), "ds": ds})
    drv.do({"op": "vert", "id": "v", "from": "s", "type": type, "method": method})
    known = []
    for f in fields:
        known += [x for x in (lv[0](co) for co in coords(ds, ds["vars"][f]["sh"])) if x is not None]
    lo, hi = (min(known), max(known)) if known else (0, 100)
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if method == "log":
            out.append(2 ** rng.randint(0, 11) if r < 0.9 else rng.choice([0, -4]))
        elif method == "loglog":
            out.append(rng.choice(known) if r < 0.8 and known else rng.choice([0, -4, 7]))
        elif r < 0.25 and known:
            out.append(rng.choice(known))
        elif r < 0.75:
            out.append(rng.randint(lo, hi))
        else:
            out.append(rng.choice([lo - rng.randint(1, 60), hi + rng.randint(1, 60), lo - 1, hi + 1]))
    name = NEW[type]
    drv.do({"op": "vertto", "id": "v", "mode": "fixed", "levels": out, "name": name, "vts": vts})
    reads17(rng, drv, "v", fields, 2)


def other(rng, drv, tier):
    method = rng.choice([m for m in METHODS if m not in ("log", "loglog")])
    type = rng.choice(TYPES)
    fit = [k for k in KINDS if FIT[k] == type and k != "none"]
    kinds = [rng.choice(fit), rng.choice(fit)]
    if type in ("height", "altitude") and rng.random() < 0.4:
        kinds[rng.randint(0, 1)] = rng.choice(["height", "altitude"])
    ds, vts, fields, lv = build(rng, kinds, type, method)
    shs = [ds["vars"][f]["sh"] for f in fields]
    if any("t" in s for s in shs) and not all("t" in s for s in shs):
        return
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store"]), "ds": ds})
    drv.do({"op": "vert", "id": "v", "from": "s", "type": type, "method": method})
    c = {"op": "vertto", "id": "v", "mode": rng.choice(["axis", "template"]), "vts": vts}
    to = rng.randint(0, 1)
    c["to"] = to + 1
    c["axis"] = vts[to]["z"]
    c["tvar"] = rng.choice([f for f in fields if f[1] == str(to)])
    if ds["dims"][c["axis"]]["len"] == 1:
        return
    if drv.do(c)["st"] == "ok":
        reads17(rng, drv, "v", fields, 2)
