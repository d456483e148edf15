"""building blocks for random scenarios; nothing here predicts results"""
RANGE = dict(char=(-128, 127), uchar=(0, 255), short=(-32768, 32767), ushort=(0, 65535), int=(-99999, 99999), uint=(0, 99999),
             int64=(-99999, 99999), uint64=(0, 99999), float=(-99999, 99999), double=(-99999, 99999))
NC3 = ["char", "short", "int", "float", "double"]
ALL = list(RANGE)


def vals(rng, t, n, small=False):
    lo, hi = RANGE[t]
    if small:
        lo, hi = max(lo, -20), min(hi, 60)
    # mostly distinct, so that a wrong element shows
    if hi - lo > 4 * n and rng.random() < 0.8:
        return rng.sample(range(lo, hi + 1), n)
    return [rng.randint(lo, hi) for _ in range(n)]


def satt(s):
    return {"t": "string", "s": s}


def natt(t, *v):
    """numeric attribute, values in thousandths"""
    return {"t": t, "m": [int(round(x * 1000)) for x in v]}


def prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def dataset(rng, types=ALL, names=("x", "y", "z", "t"), maxlen=4, nvars=(1, 3), unlim=0.6, coords=0.4, scalar=0.1, atts=True, minlen=1, maxdims=4, maxtot=120):
    nd = rng.choice([1, 2, 2, 3, 3, 4])
    nd = min(nd, maxdims, len(names))
    use = sorted(rng.sample(range(len(names)), nd))
    dims = {}
    for i in use:
        dims[names[i]] = {"len": rng.randint(minlen, maxlen), "u": 0}
    last = names[use[-1]]
    if rng.random() < unlim:
        dims[last]["u"] = 1
    order = [names[i] for i in use]
    vs = {}
    for k in range(rng.randint(*nvars)):
        if rng.random() < scalar:
            sh = []
        else:
            m = rng.choice([len(order), len(order), rng.randint(1, len(order))])
            sh = [order[i] for i in sorted(rng.sample(range(len(order)), m))]
            if not any(dims[d]["u"] for d in sh) and rng.random() < 0.3:
                rng.shuffle(sh)
        while prod(dims[d]["len"] for d in sh) > maxtot:
            sh = sh[1:]
        t = rng.choice(types)
        v = {"t": t, "sh": sh, "d": vals(rng, t, prod(dims[d]["len"] for d in sh)), "a": {}}
        if atts and rng.random() < 0.5:
            v["a"]["units"] = satt(rng.choice(["m", "K", "1"]))
        if atts and rng.random() < 0.3:
            v["a"]["n"] = natt(rng.choice(["int", "short", "double", "float"]), rng.randint(-50, 50))
        vs["v%d" % k] = v
    for d in order:
        if rng.random() < coords:
            t = rng.choice([x for x in types if x not in ("char", "uchar")])
            a = rng.randint(0, 50)
            st = rng.randint(1, 9)
            vs[d] = {"t": t, "sh": [d], "d": [a + st * i for i in range(dims[d]["len"])], "a": {}}
    return {"dims": dims, "vars": vs, "ga": ({"title": satt("a b")} if rng.random() < 0.5 else {})}


def prune(ds):
    """drop dimensions no variable uses: files do not keep them"""
    used = {d for v in ds["vars"].values() for d in v["sh"]}
    ds["dims"] = {n: d for n, d in ds["dims"].items() if n in used}
    return ds


def block(rng, dims, sh, bad=0.15):
    """a random block request for a variable of shape sh; dims: name -> len"""
    sl = {}
    for d in sh:
        if rng.random() < 0.75:
            n = dims[d]
            if rng.random() < bad:
                # at and beyond the edges
                st = rng.choice([-1, 0, n - 1, n, n + 1])
                sz = rng.choice([0, 1, n, n + 1])
            else:
                st = rng.randint(0, max(0, n - 1))
                sz = rng.randint(min(1, n - st), max(0, n - st))
                if rng.random() < 0.08:
                    sz = 0
            sl[d] = [st, sz]
    return sl


def desc_dims(o):
    return {n: d["len"] for n, d in o.get("dims", {}).items()}


def reads(rng, drv, rid, n=4, modes=("raw",), bad=0.15, extra=None, only=None, names=None):
    """describes reader rid and reads random blocks of random variables"""
    c = {"op": "desc", "id": rid}
    if names is not None:
        c["names"] = names
    o = drv.do(c)
    if o.get("st") != "ok":
        return o
    dims = desc_dims(o)
    un = [d for d in o["dims"] if o["dims"][d]["u"]]
    vs = sorted(v for v in o["vars"] if only is None or only(v, o["vars"][v]))
    for _ in range(n):
        if not vs:
            break
        v = rng.choice(vs)
        sh = o["vars"][v]["sh"]
        if any(d not in dims for d in sh) or o["vars"][v]["t"] in ("string", "strings", "nat"):
            continue
        c = {"op": "read", "id": rid, "var": v, "mode": rng.choice(modes)}
        if c["mode"] != "raw":
            c.update(scale=1000, exact=0)
        r = rng.random()
        if r < 0.55:
            c["sl"] = block(rng, dims, sh, bad)
        elif r < 0.8:
            n0 = dims[un[0]] if un else 1
            c["pos"] = rng.randint(0, max(0, n0 - 1))
            if rng.random() < bad:
                c["pos"] = rng.choice([n0, n0 + 1])
        if extra:
            c.update(extra)
        drv.do(c)
    return o
