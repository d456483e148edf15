from ..gen import *

FAMILIES = [("systems", 5000, 50000), ("changes", 1500, 15000), ("vectors", 1500, 12000)]
MUST = ["coordsys", "besthoriz", "vectors"]
ASSUMPTIONS = ["no auxiliary coordinate has the type of a dimension of the same variable", "CF datasets (the WRF convention is not covered)"]
TU = ["hours since 2000-01-01 00:00:00", "days since 1990-05-05", "seconds since 1970-01-01 00:00:00 +00:00"]
PARAM = {"atmosphere_sigma_coordinate": ["sigma", "ptop", "ps"], "atmosphere_hybrid_sigma_pressure_coordinate": ["a", "b", "ps", "p0", "ap"],
         "atmosphere_hybrid_height_coordinate": ["a", "b", "orog"], "ocean_s_coordinate_g1": ["s", "C", "depth", "depth_c", "eta"],
         "ocean_s_coordinate_g2": ["s", "C", "depth", "depth_c", "eta"], "atmosphere_ln_pressure_coordinate": ["lev", "p0"], "ocean_sigma_coordinate": ["sigma"],
         "atmosphere_sleve_coordinate": ["a"]}


def kind_atts(rng, kind):
    """attributes which make an axis of a kind: list of dicts"""
    lon = ["degrees_east", "degrees_E", "degreesE", "degree_east", "degree_E", "degreeE", "Degrees_East"]
    lat = ["degrees_north", "degrees_N", "degreesN", "degree_north", "degree_N", "degreeN", "Degrees_North"]
    up = rng.choice(["up", "up", "Up", "UP"])
    down = rng.choice(["down", "down", "Down"])
    L = rng.choice(["m", "m", "km", "cm"])
    opts = {
        "Lon": [{"units": rng.choice(lon)}, {"standard_name": rng.choice(["longitude", "Longitude"])}, {"standard_name": "longitude", "units": "degrees_east", "axis": "X"}],
        "Lat": [{"units": rng.choice(lat)}, {"standard_name": "latitude"}, {"standard_name": "latitude", "units": "degrees_north", "axis": "Y"}],
        "GeoX": [{"standard_name": "projection_x_coordinate", "units": "m"}, {"standard_name": "grid_longitude", "units": "degree"}, {"axis": rng.choice("Xx"), "units": "km"}],
        "GeoY": [{"standard_name": "projection_y_coordinate", "units": "m"}, {"standard_name": "grid_latitude", "units": "degree"}, {"axis": rng.choice("Yy")}],
        "Time": [{"units": rng.choice(TU)}, {"units": rng.choice(TU), "standard_name": "time", "axis": "T"}, {"axis": rng.choice("Tt")}],
        "Ref": [{"units": rng.choice(TU), "standard_name": "forecast_reference_time"}],
        "Real": [{"standard_name": "realization", "units": "1"}],
        "Height": [{"units": L, "positive": up}, {"units": L, "axis": rng.choice("Zz")}, {"units": L, "positive": up, "standard_name": rng.choice(["altitude", "height", "height_above_reference_ellipsoid"])},
                   {"units": L, "positive": up, "standard_name": "height", "computed_standard_name": rng.choice(["altitude", "height"])}],
        "Depth": [{"units": L, "positive": down}],
        "Pressure": [{"units": rng.choice(["hPa", "Pa", "mbar", "dbar"])}, {"units": "hPa", "positive": "down", "axis": "Z", "standard_name": "air_pressure"}],
        "GeoZ": [{"units": rng.choice(["level", "layer", "sigma_level", "Level"])}, {"positive": rng.choice([up, down]), "units": rng.choice(["1", "K"])}, {"positive": up}, {"axis": "Z", "units": "1"}],
        "Param": [{"standard_name": rng.choice(list(PARAM))}, {"standard_name": rng.choice(list(PARAM)), "units": rng.choice(["1", "level", "m"]), "positive": up}],
        "None": [{}, {"units": "1"}, {"units": "K", "standard_name": "air_temperature"}, {"units": "m"}],
    }
    return dict(rng.choice(opts[kind]))


NAMES = {"Lon": ["lon", "longitude", "x"], "Lat": ["lat", "latitude", "y"], "GeoX": ["x", "xc", "rlon"], "GeoY": ["y", "yc", "rlat"], "Time": ["time", "t"], "Ref": ["reftime"],
         "Real": ["ens", "member"], "Height": ["height", "altitude", "my_altitude", "z"], "Depth": ["depth", "z"], "Pressure": ["p", "plev"], "GeoZ": ["lev", "k"], "Param": ["sigma", "hybrid", "lev"],
         "None": ["n", "m", "station"]}
ZK = ["Height", "Depth", "Pressure", "GeoZ", "Param", "Param"]


def build(rng):
    dims, vs, words, terms = {}, {}, {}, {}
    kind = {}

    def name(k):
        for n in rng.sample(NAMES[k], len(NAMES[k])) + [NAMES[k][0] + str(i) for i in range(1, 9)]:
            if n not in dims and n not in vs:
                return n

    def dim(k):
        n = name(k)
        dims[n] = {"len": rng.choice([1, 2, 3]), "u": 0}
        kind[n] = k
        if rng.random() < 0.93:
            var(n, [n], kind_atts(rng, k))
        else:
            kind[n] = "None"
        return n

    def var(n, sh, atts):
        vs[n] = {"t": rng.choice(["float", "double", "int"]), "sh": sh, "d": list(range(prod(dims[d]["len"] for d in sh))), "a": {a: satt(x) for a, x in atts.items()}}

    def aux(k, sh):
        n = name(k)
        var(n, sh, kind_atts(rng, k))
        kind[n] = k
        return n

    latlon = rng.random() < 0.4
    hx = [dim("Lon") if latlon else dim(rng.choice(["GeoX", "GeoX", "None"]))] if rng.random() < 0.9 else []
    hy = [dim("Lat") if latlon else dim(rng.choice(["GeoY", "GeoY", "None"]))] if rng.random() < 0.9 else []
    tt = [dim("Time")] if rng.random() < 0.8 else []
    zs = [dim(rng.choice(ZK)) for _ in range(rng.choice([0, 1, 1, 2]))]
    ex = [dim(rng.choice(["None", "Real", "Ref"]))] if rng.random() < 0.4 else []
    if rng.random() < 0.07:
        ex.append(dim(rng.choice(["GeoX", "Lon", "Time", "Pressure"])))
    if tt and rng.random() < 0.6:
        dims[tt[0]]["u"] = 1
    extra = []
    if not latlon and hx and hy and rng.random() < 0.7:
        sh = rng.choice([hy + hx, hy + hx, hx + hy])
        extra.append([aux("Lat", sh), aux("Lon", sh)])
    elif not latlon and rng.random() < 0.3:
        sh = hx or hy or []
        extra.append([aux("Lat", sh), aux("Lon", sh)])
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        extra.append([aux(rng.choice(["Height", "Pressure", "Ref", "Real", "None", "Time", "Depth"]), [])])
    # mapping
    gm = None
    if rng.random() < 0.6:
        gm = "crs"
        vs[gm] = {"t": "int", "sh": [], "d": [0], "a": {}}
        if rng.random() < 0.9:
            vs[gm]["a"]["grid_mapping_name"] = satt(rng.choice(["latitude_longitude", "polar_stereographic", "rotated_latitude_longitude", "lambert_conformal_conic", "mercator", "stereographic"]))
    # variables
    data = []
    for i in range(rng.randint(1, 4)):
        z = [rng.choice(zs)] if zs and rng.random() < 0.7 else []
        if len(zs) > 1 and rng.random() < 0.04:
            z = zs
        sh = (tt if rng.random() < 0.85 else []) + (ex[:1] if rng.random() < 0.5 else []) + z
        sh += rng.choice([hy + hx] * 6 + [hx + hy, hx, hy, []])
        if len(ex) > 1 and rng.random() < 0.5:
            sh += ex[1:]
        n = "v%d" % i
        a = {}
        if extra and rng.random() < 0.75:
            w = [x for g in extra if rng.random() < 0.8 for x in g]
            if rng.random() < 0.15 and sh:
                w.append(rng.choice(sh))
            if rng.random() < 0.05:
                w.append("missing_var")
            sim = lambda k: "Z" if k == "Param" else "Z" if k == "GeoZ" else k
            have = {sim(kind[d]) for d in sh if d not in w}
            w = [x for x in w if x == "missing_var" or kind[x] == "None" or sim(kind[x]) not in have]
            rng.shuffle(w)
            w = list(dict.fromkeys(w))
            if w:
                s = " ".join(w)
                words[s] = w
                a["coordinates"] = s
        if gm and rng.random() < 0.75:
            a["grid_mapping"] = gm if rng.random() < 0.93 else "no_such"
        if rng.random() < 0.5:
            a["units"] = rng.choice(["K", "m", "1"])
        var(n, sh, a)
        data.append(n)
    # formulas
    for z in zs:
        sn = vs.get(z, {"a": {}})["a"].get("standard_name", {"s": ""})["s"]
        if sn in PARAM and rng.random() < 0.9 or rng.random() < 0.05:
            t, s = {}, []
            for k in PARAM.get(sn, ["a"]):
                if k == "ap" and rng.random() < 0.5 or rng.random() < 0.1:
                    continue
                tv = "%s_%s" % (k, z)
                if tv not in vs and rng.random() < 0.95:
                    if k in ("ps", "eta", "orog", "depth", "p"):
                        var(tv, rng.choice([tt + hy + hx, hy + hx, tt + ex[:1] + hy + hx]), {})
                        if rng.random() < 0.2 and extra:
                            w = extra[0]
                            sh = vs[tv]["sh"]
                            if not {kind[x] for x in w} & {kind[d] for d in sh}:
                                words[" ".join(w)] = w
                                vs[tv]["a"]["coordinates"] = satt(" ".join(w))
                    else:
                        var(tv, rng.choice([[z], [z], []]), {})
                t[k] = tv
                s.append(k + rng.choice([": ", ": ", ":", " : "]) + tv)
            f = rng.choice([" ", "  "]).join(s)
            if s and z in vs:
                terms[f] = t
                vs[z]["a"]["formula_terms"] = satt(f)
    # bounds
    for n in list(dims):
        if n in vs and rng.random() < 0.15:
            b = n + "_bnds"
            vs[n]["a"]["bounds"] = satt(b)
            if rng.random() < 0.8:
                if "nv" not in dims:
                    dims["nv"] = {"len": 2, "u": 0}
                    kind["nv"] = "None"
                var(b, [n, "nv"], {})
    items = list(vs.items())
    if rng.random() < 0.7:
        rng.shuffle(items)
    ga = {}
    if rng.random() < 0.5:
        ga[rng.choice(["Conventions", "conventions"])] = satt(rng.choice(["CF-1.6", "CF-1.0", "COARDS", "cf-1.4", "xyz"]))
    return {"dims": dims, "vars": dict(items), "ga": ga}, words, terms


def ask(ds, words, terms, extra=()):
    order = sorted(set(ds["dims"]) | set(ds["vars"]) | {w for l in words.values() for w in l} | set(extra))
    return {"order": order, "vorder": list(ds["vars"]), "words": words, "terms": terms}


def systems(rng, drv, tier):
    ds, words, terms = build(rng)
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "mem", "store"]), "ds": ds})
    q = ask(ds, words, terms)
    drv.do(dict(q, op="coordsys", id="s"))
    if rng.random() < 0.6:
        drv.do(dict(q, op="besthoriz", id="s", proj=rng.randint(0, 1)))
    if rng.random() < 0.2:
        drv.do(dict(q, op="coordsys", id="s"))


def changes(rng, drv, tier):
    """axes follow the metadata"""
    ds, words, terms = build(rng)
    vorder = []
    for n, d in ds["dims"].items():
        drv.do({"op": "cdm", "id": "m", "do": "adddim", "name": n, "len": d["len"], "u": d["u"]})
    for n, v in ds["vars"].items():
        drv.do({"op": "cdm", "id": "m", "do": "addvar", "name": n, "t": v["t"], "sh": v["sh"]})
        vorder.append(n)
        for a, x in v["a"].items():
            drv.do({"op": "cdm", "id": "m", "do": "addatt", "var": n, "name": a, "val": x})
    q = ask(ds, words, terms, ["w0", "w1", "d0"])
    ax = [n for n in ds["vars"] if n in ds["dims"]]
    dat = [n for n in ds["vars"] if n not in ds["dims"] and n[0] == "v"]
    for k in range(rng.randint(1, 5)):
        drv.do(dict(q, op="coordsys", id="m", cdm=1, vorder=list(vorder)))
        r = rng.random()
        if words and r < 0.5:
            r = 0.5 + r
        if r < 0.3 and ax:
            n = rng.choice(ax)
            a, x = rng.choice([("units", "m"), ("units", "hPa"), ("units", "degrees_east"), ("axis", "X"), ("axis", "Z"), ("positive", "up"), ("positive", "down"), ("standard_name", "latitude"), ("standard_name", "height")])
            drv.do({"op": "cdm", "id": "m", "do": "setatt", "var": n, "name": a, "val": satt(x)})
        elif r < 0.5 and ax:
            n = rng.choice(ax)
            drv.do({"op": "cdm", "id": "m", "do": "rmatt", "var": n, "name": rng.choice(["units", "standard_name", "axis", "positive"])})
        elif r < 0.65 and dat:
            n = rng.choice(dat)
            drv.do({"op": "cdm", "id": "m", "do": "rmvar", "name": n})
            dat.remove(n)
            vorder.remove(n)
        elif r < 0.8 and dat:
            sh = ds["vars"][rng.choice(list(ds["vars"]))]["sh"]
            n = "w%d" % (k % 2)
            if n in vorder:
                continue
            drv.do({"op": "cdm", "id": "m", "do": "addvar", "name": n, "t": "float", "sh": sh})
            vorder.append(n)
        elif ax:
            n = rng.choice(ax)
            drv.do({"op": "cdm", "id": "m", "do": "rmvar", "name": n})
            ax.remove(n)
            vorder.remove(n)
        if rng.random() < 0.2:
            drv.do({"op": "cdmcopy", "id": "m2", "from": "m"})
            drv.do(dict(q, op="coordsys", id="m2", cdm=1, vorder=list(vorder)))
    drv.do(dict(q, op="coordsys", id="m", cdm=1, vorder=list(vorder)))


PAIRS = {"wind": ("x_wind", "y_wind"), "sea": ("sea_water_x_velocity", "sea_water_y_velocity"), "ice": ("sea_ice_x_velocity", "sea_ice_y_velocity"),
         "ewind": ("eastward_wind", "northward_wind"), "esea": ("eastward_sea_water_velocity", "northward_sea_water_velocity"),
         "stress": ("surface_downward_eastward_stress", "surface_downward_northward_stress")}


def vectors(rng, drv, tier):
    dims = {"x": {"len": 2, "u": 0}, "y": {"len": 2, "u": 0}, "h": {"len": 1, "u": 0}}
    shapes = [["y", "x"], ["h", "y", "x"], ["x", "y"], ["y", "x"]]
    vs, std = {}, {}
    ks = rng.sample(list(PAIRS), rng.randint(1, 3))
    todo = []
    for k in ks:
        for r in rng.sample(["", "", "_of_gust", "_due_to_tides", "_shear"], rng.randint(1, 3)):
            sh = rng.choice(shapes)
            for c in "xy":
                if rng.random() < 0.93:
                    todo.append((k, c, r, sh if rng.random() < 0.95 else rng.choice(shapes)))
    rng.shuffle(todo)
    for i, (k, c, r, sh) in enumerate(todo):
        n = "%s%d" % (rng.choice("abcdefg"), i)
        vs[n] = {"t": "float", "sh": sh, "d": list(range(prod(dims[d]["len"] for d in sh))), "a": {"standard_name": satt(PAIRS[k]["xy".index(c)] + r)}}
        std[n] = {"k": k, "c": c, "r": r}
    for i in range(rng.randint(0, 2)):
        vs["o%d" % i] = {"t": "float", "sh": ["y", "x"], "d": [1, 2, 3, 4], "a": {"standard_name": satt(rng.choice(["air_temperature", "wind_speed", "my_x_wind", "upward_air_velocity"]))}}
    drv.do({"op": "src", "id": "s", "kind": "mem", "ds": {"dims": dims, "vars": vs, "ga": {}}})
    drv.do({"op": "vectors", "id": "s", "std": std, "vorder": list(vs)})
    if rng.random() < 0.3:
        drv.do({"op": "vectors", "id": "s", "std": std, "vorder": list(vs)})
