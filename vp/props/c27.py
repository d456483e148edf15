import math
from ..gen import *

FAMILIES = [("texts", 6000, 60000), ("attributes", 3000, 30000), ("figures", 800, 6000)]
MUST = ["proj4", "projatts", "earthfigure"]
ASSUMPTIONS = ["PROJ itself is right; coordinates are compared with those it gives for the original text", "units of metres, ellipsoids of the library's table, utm with a zone"]


def mic(x):
    """text of millionths of a decimal text"""
    s = x.lstrip("-")
    a, _, b = s.partition(".")
    v = int(a or "0") * 10**6 + int((b + "000000")[:6])
    return str(-v if x.startswith("-") and v else v)


def num(rng, lo, hi):
    """decimal text with at most 6 decimals"""
    k = rng.random()
    if k < 0.35:
        return str(rng.randint(math.ceil(lo), math.floor(hi)))
    d = rng.choice([1, 2, 4, 6, 6])
    t = "%.*f" % (d, rng.uniform(lo, hi))
    return "0" if float(t) == 0 else t


def earth(rng, must=False):
    """words, description, towgs84"""
    k = rng.choice(["R", "ae0", "ab", "arf", "ellps", "ellps", "datum", "ae", "f"] + ([] if must else ["none"]))
    M = rng.choice(["6371000", "6370997", "6378137", "6367470", "6371229.5"])
    if k == "none":
        return [], {"k": "none"}
    if k == "R":
        return ["+R=" + M], {"k": "sphere", "M": mic(M)}
    if k == "ae0":
        return ["+a=" + M, "+e=0"] if rng.random() < 0.7 else ["+e=0", "+a=" + M], {"k": "sphere", "M": mic(M)}
    if k == "ab":
        a, b = rng.choice([("6378137", "6356752.314245"), ("6378169", "6356583.8"), ("6377563.396", "6356256.909237"), ("6371229", "6371229")])
        return ["+a=" + a, "+b=" + b], {"k": "figure", "M": mic(a), "m": mic(b), "rf": ""}
    if k == "arf":
        a, r = rng.choice([("6378137", "298.257223"), ("6377397.155", "299.152813"), ("6378160", "298.25")])
        return ["+a=" + a, "+rf=" + r], {"k": "figure", "M": mic(a), "m": "", "rf": mic(r)}
    if k == "ae":
        a, e, b = rng.choice([("6378137", "0.08", "6357694200619"), ("6378137", "0.0818", "6356762361568")])
        return ["+a=" + a, "+e=" + e], {"k": "figure", "M": mic(a), "m": b, "rf": ""}
    if k == "f":
        return ["+a=6378137", "+f=0.0033"], {"k": "figure", "M": "6378137000000", "m": "", "rf": "303030303"}
    if k == "datum":
        return ["+datum=WGS84"], {"k": "datum", "e": "wgs84"}
    e = rng.choice(["WGS84", "GRS80", "WGS72", "intl", "bessel"])
    return ["+ellps=" + e], {"k": "ellps", "e": e.lower()}


def pick(rng, kind):
    """key texts and centre of the map"""
    kv, lat, lon = {}, 0.0, 0.0
    opt = lambda p=0.8: rng.random() < p
    if kind in ("aea", "lcc"):
        lat1 = num(rng, 20, 70)
        if rng.random() < 0.3:
            lat1 = "-" + lat1
        kv["lat_1"] = lat1
        if opt(0.7) or kind == "aea":
            kv["lat_2"] = num(rng, -70, -20) if lat1[0] == "-" else num(rng, 20, 70)
        lat = float(lat1)
        if opt() or "lat_2" not in kv:
            kv["lat_0"] = num(rng, max(-80, lat - 15), min(80, lat + 15))
    elif kind == "polar":
        kv["lat_0"] = rng.choice(["90", "-90"])
        lat = float(kv["lat_0"]) * 0.8
        r = rng.random()
        if r < 0.5:
            kv["lat_ts"] = ("-" if lat < 0 else "") + num(rng, 50, 89)
        elif r < 0.8:
            kv["k"] = num(rng, 0.5, 1.5)
    elif kind in ("cea", "merc"):
        r = rng.random()
        if r < 0.4:
            kv["lat_ts"] = num(rng, -60, 60)
        elif r < 0.8:
            kv["k"] = num(rng, 0.5, 1.5 if kind == "merc" else 1)
        lat = rng.uniform(-50, 50)
    elif kind == "omerc":
        kv["lonc"] = num(rng, -170, 170)
        lon = float(kv["lonc"])
        kv["lat_0"] = num(rng, 10, 70)
        lat = float(kv["lat_0"])
        kv["alpha"] = num(rng, 10, 80)
        if opt(0.4):
            kv["gamma"] = num(rng, 10, 80)
        if opt(0.5):
            kv["k"] = num(rng, 0.9, 1.1)
        if opt(0.3):
            kv["no_rot"] = None
    elif kind == "rot":
        kv["o_lat_p"] = num(rng, 10, 89)
        if opt(0.5):
            kv["o_lon_p"] = num(rng, -170, 170)
    elif kind in ("sinu", "latlong", "utm"):
        lat = rng.uniform(-60, 60)
    else:
        if opt(0.85):
            kv["lat_0"] = num(rng, -60, 60)
            lat = float(kv["lat_0"])
        if kind == "geos":
            kv.pop("lat_0", None)
            lat = 0
            kv["h"] = rng.choice(["35785831", "35786000.5"])
            if opt(0.6):
                kv["sweep"] = rng.choice("xy")
        if kind == "nsper":
            kv["h"] = num(rng, 2000000, 9000000)
        if kind == "stere" and rng.random() < 0.6:
            kv["k"] = num(rng, 0.5, 1.5)
        elif kind == "stere" and rng.random() < 0.3:
            kv["lat_ts"] = num(rng, 30, 80)
        if kind == "tmerc" and opt(0.6):
            kv["k"] = num(rng, 0.9, 1.1)
    if kind not in ("omerc", "latlong", "utm") and opt(0.9):
        kv["lon_0"] = num(rng, -175, 175)
        lon = float(kv["lon_0"])
    if kind not in ("latlong", "utm", "rot", "other"):
        if opt(0.4):
            kv["x_0"] = num(rng, -5000000, 5000000)
        if opt(0.4):
            kv["y_0"] = num(rng, -5000000, 5000000)
    return kv, lat, lon


def near(rng, lat, lon, n=3):
    out = []
    for _ in range(n):
        la = max(-85.0, min(85.0, lat + rng.uniform(-4, 4)))
        lo = (lon + rng.uniform(-4, 4) + 180) % 360 - 180
        out.append([round(lo * 1e6), round(la * 1e6)])
    return out


KINDS = ["aea", "lcc", "lcc", "aeqd", "laea", "ortho", "geos", "nsper", "cea", "merc", "omerc", "sinu", "stere", "polar", "polar", "tmerc", "utm", "latlong", "rot", "rot", "other"]
NUMERIC = {"sweep", "no_rot"}


def texts(rng, drv, tier):
    if rng.random() < 0.03:
        drv.do({"op": "proj4", "kind": "bad", "text": rng.choice(["", "+lon_0=3", "lcc +lat_1=3", "+a=6371000 +e=0", "+o_proj=latlong"]), "earth": "", "pts": []})
        return
    kind = rng.choice(KINDS)
    kv, lat, lon = pick(rng, "sinu" if kind == "other" else kind)
    zone = 1
    ew, E = earth(rng)
    while kind == "utm" and (E["k"] == "sphere" or E.get("m") == E.get("M", 0)):
        ew, E = earth(rng)
    tow = []
    if E["k"] not in ("none", "datum") and rng.random() < 0.15:
        tow = [num(rng, -500, 500) for _ in range(rng.choice([3, 3, 7]))]
        if len(tow) == 7:
            tow[3:] = [num(rng, -3, 3) for _ in range(4)]
        ew = ew + ["+towgs84=" + ",".join(tow)]
    name = {"polar": "stere", "rot": "ob_tran", "latlong": rng.choice(["latlong", "longlat"]), "other": rng.choice(["moll", "robin", "eck4", "hammer"])}.get(kind, kind)
    ws = []
    for k, v in kv.items():
        ws.append("+" + (rng.choice(["k", "k_0"]) if k == "k" else k) + ("" if v is None else "=" + v))
    if kind == "utm":
        zone = rng.randint(1, 60)
        lon = 6 * (zone - 1) - 177
        ws.append("+zone=%d" % zone)
        if rng.random() < 0.4:
            ws.append("+south")
            kv["south"] = None
    if kind == "rot":
        ws.append("+o_proj=" + rng.choice(["latlong", "longlat"]))
        lon = lon + rng.uniform(-100, 100)
        lat = rng.uniform(-60, 60)
    ws += ew
    if rng.random() < 0.5:
        rng.shuffle(ws)
    if rng.random() < 0.5:
        ws.append("+no_defs")
    ws.insert(0, "+proj=" + name)
    text = " ".join(ws) if rng.random() < 0.9 else "  ".join(ws) + " "
    c = {"op": "proj4", "kind": kind, "text": text, "kv": {k: ([] if v is None else [v] if k in NUMERIC else [mic(v)]) for k, v in kv.items()}, "earth": " ".join(ew), "E": E, "tow": [mic(t) for t in tow],
         "zone": zone, "lonu": int(mic(kv.get("lon_0", "0"))), "pts": near(rng, lat, lon) if E["k"] != "none" and kind != "other" and not tow else []}
    if kind == "other":
        w = {}
        for x in ws:
            k, _, v = x.partition("=")
            k = {"+k_0": "+k"}.get(k, k)
            w[k] = ["latlong" if v == "longlat" else v] if k in ("+proj", "+o_proj", "+ellps", "+datum", "+sweep") else [mic(q) for q in v.split(",")] if v else []
        c["words"] = w
    drv.do(c)


CF = {"aea": {"lon_0": "longitude_of_central_meridian", "lat_0": "latitude_of_projection_origin"}, "cea": {"lon_0": "longitude_of_central_meridian", "lat_ts": "standard_parallel", "k": "scale_factor_at_projection_origin"},
      "tmerc": {"lon_0": "longitude_of_central_meridian", "lat_0": "latitude_of_projection_origin", "k": "scale_factor_at_central_meridian"},
      "polar": {"lon_0": "straight_vertical_longitude_from_pole", "lat_0": "latitude_of_projection_origin", "lat_ts": "standard_parallel", "k": "scale_factor_at_projection_origin"},
      "omerc": {"lonc": "longitude_of_projection_origin", "lat_0": "latitude_of_projection_origin", "alpha": "azimuth_of_central_line", "k": "scale_factor_at_projection_origin", "gamma": "gamma"},
      "rot": {"lon_0": "grid_north_pole_longitude", "o_lat_p": "grid_north_pole_latitude", "o_lon_p": "north_pole_grid_longitude"}}
CF["lcc"] = CF["aea"]
ANY = {"lon_0": "longitude_of_projection_origin", "lat_0": "latitude_of_projection_origin", "lat_ts": "standard_parallel", "k": "scale_factor_at_projection_origin", "h": "perspective_point_height", "sweep": "sweep_angle_axis"}
NAMES = {"aea": "albers_conical_equal_area", "lcc": "lambert_conformal_conic", "aeqd": "azimuthal_equidistant", "laea": "lambert_azimuthal_equal_area", "ortho": "orthographic", "geos": "geostationary",
         "nsper": "vertical_perspective", "cea": "lambert_cylindrical_equal_area", "merc": "mercator", "omerc": "oblique_mercator", "sinu": "sinusoidal", "stere": "stereographic", "polar": "polar_stereographic",
         "tmerc": "transverse_mercator", "latlong": "latitude_longitude", "rot": "rotated_latitude_longitude"}


def attributes(rng, drv, tier):
    kind = rng.choice([k for k in KINDS if k in NAMES])
    kv, lat, lon = pick(rng, kind)
    lat2 = kv.pop("lat_2", None)
    lat1 = kv.pop("lat_1", None)
    kv.pop("no_rot", None)
    atts = []

    def add(n, *v):
        ints = all("." not in x for x in v)
        t = rng.choice(["int", "double"] if ints else ["double"])
        atts.append({"n": n, "t": t, "v": [mic(x) for x in v]})

    if lat1:
        if lat2:
            add("standard_parallel", lat1, lat2)
        else:
            add("standard_parallel", lat1)
    poleu = 0
    for k, v in kv.items():
        n = {"x_0": "false_easting", "y_0": "false_northing"}.get(k) or CF.get(kind, ANY)[k]
        if k == "sweep":
            atts.append({"n": n, "t": "string", "v": [v]})
        else:
            add(n, v)
        if n == "grid_north_pole_longitude":
            poleu = int(mic(v))
            lon = float(v) - 180
    r = rng.random()
    if r < 0.35:
        add("earth_radius", rng.choice(["6371000", "6370997", "6371229.5"]))
    elif r < 0.8:
        add("semi_major_axis", rng.choice(["6378137", "6377397.155"]))
        r = rng.random()
        if r < 0.45:
            add("semi_minor_axis", "6356752.3142")
        elif r < 0.9:
            add("inverse_flattening", rng.choice(["298.257223", "299.152813"]))
    if rng.random() < 0.1:
        add(rng.choice(["earth_radius", "semi_major_axis"]), "6371100")
        if rng.random() < 0.5 and len(atts) > 1:
            atts[-1], atts[-2] = atts[-2], atts[-1]
    if rng.random() < 0.1:
        atts.append({"n": "long_name", "t": "string", "v": ["some mapping"]})
    atts.append({"n": "grid_mapping_name", "t": "string", "v": [NAMES[kind] if rng.random() < 0.96 else rng.choice(["no_such_mapping", "Mercator", "lambert_conformal"])]})
    if kind == "latlong" and rng.random() < 0.3:
        atts.pop()
    rng.shuffle(atts)
    if len({a["n"] for a in atts}) < len(atts):
        seen = set()
        atts = [a for a in atts if not (a["n"] in seen or seen.add(a["n"]))]
    pts = near(rng, lat, lon)
    drv.do({"op": "projatts", "atts": atts, "poleu": poleu, "pts": pts if rng.random() < 0.5 else []})


def figures(rng, drv, tier):
    kind = rng.choice(["lcc", "laea", "merc", "tmerc", "rot", "latlong"])
    kv, lat, lon = pick(rng, kind)
    ew = list(earth(rng)[0])
    ws = ["+%s=%s" % (k, v) for k, v in kv.items() if v is not None] + ew
    rng.shuffle(ws)
    ws = ["+proj=" + kind] + ws + (["+no_defs"] if rng.random() < 0.5 else [])
    nw = list(earth(rng)[0])
    drv.do({"op": "earthfigure", "text": " ".join(ws), "new": " ".join(nw), "oldw": ws, "earthw": ew, "neww": nw})
