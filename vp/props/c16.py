from ..gen import *
from . import c14

FAMILIES = [("creep", 3000, 40000), ("laplace", 3000, 40000), ("layers", 1500, 15000)]
MUST = ["fill2d", "interp", "interpto", "read"]
ENV = c14.ENV
ASSUMPTIONS = ["whole numbers of at most 100 in fields of at most 9 x 9 points; relaxation coefficients of 1.0 to 1.6",
               "the equation itself is demanded of the iterative method when it may take 5000 rounds"]
NAN = 2000000000


def field(rng):
    k = rng.random()
    if k < 0.15:
        nx, ny = rng.choice([(1, rng.randint(1, 6)), (rng.randint(1, 6), 1), (2, rng.randint(2, 5)), (rng.randint(2, 5), 2)])
    else:
        nx, ny = rng.randint(3, 9), rng.randint(3, 9)
    n = nx * ny
    a = rng.choice([1, 10, 100])
    d = [rng.randint(-a, a) for _ in range(n)]
    k = rng.random()
    if k < 0.15:
        d = [d[0]] * n
    k = rng.random()
    if k < 0.04:
        u = set()
    elif k < 0.1:
        u = set(range(n))
    elif k < 0.2:
        u = set(range(n)) - {rng.randrange(n)}
    elif k < 0.3:
        u = {rng.randrange(n)}
    elif k < 0.45:     # a block
        x0, y0 = rng.randrange(nx), rng.randrange(ny)
        x1, y1 = rng.randint(x0, nx - 1), rng.randint(y0, ny - 1)
        u = {y * nx + x for y in range(y0, y1 + 1) for x in range(x0, x1 + 1)}
    elif k < 0.55:     # the border
        u = {y * nx + x for y in range(ny) for x in range(nx) if x in (0, nx - 1) or y in (0, ny - 1)}
    elif k < 0.6:      # all but the border
        u = {y * nx + x for y in range(1, ny - 1) for x in range(1, nx - 1)}
    else:
        p = rng.choice([0.1, 0.3, 0.5, 0.8, 0.9])
        u = {i for i in range(n) if rng.random() < p}
    return nx, ny, [NAN if i in u else d[i] for i in range(n)]


def creep(rng, drv, tier):
    for _ in range(4):
        nx, ny, d = field(rng)
        kind = rng.choice(["creep", "creepval"])
        drv.do({"op": "fill2d", "kind": kind, "nx": nx, "ny": ny, "d": d, "repeat": rng.choice([0, 1, 1, 2, 3, 5, 20]), "weight": rng.choice([1, 1, 2, 3, 5]),
                "def": rng.randint(-100, 100), "env": 1})


def laplace(rng, drv, tier):
    for _ in range(4):
        nx, ny, d = field(rng)
        drv.do({"op": "fill2d", "kind": "laplace", "nx": nx, "ny": ny, "d": d, "cor": rng.choice([10, 12, 14, 16]), "loops": rng.choice([0, 1, 3, 10, 100, 5000, 5000, 5000, 5000]), "tol": 20, "env": 1})


def layers(rng, drv, tier):
    deg = True
    m = rng.choice(["nearestneighbor", "nearestneighbor", "bilinear"])
    mul = {"nearestneighbor": 1, "bilinear": 16}[m]
    ds, gx, gy = c14.source(rng, deg, mul)
    for n, v in ds["vars"].items():
        # enough undefined values, and layers without any other
        if n[0] == "v" and gx in v["sh"] and gy in v["sh"] and ("_FillValue" in v["a"] or v["t"] in ("float", "double")):
            w = NAN if v["t"] in ("float", "double") else 0
            if w is NAN:
                p = rng.choice([0.1, 0.5, 0.9])
                ls = ds["dims"][gx]["len"] * ds["dims"][gy]["len"]
                for k in range(len(v["d"]) // ls):
                    q = 1 if rng.random() < 0.2 else p
                    v["d"][k * ls:(k + 1) * ls] = [NAN if rng.random() < q else x for x in v["d"][k * ls:(k + 1) * ls]]
    drv.do({"op": "src", "id": "s", "kind": rng.choice(["mem", "store", "store", "netcdf4"]), "ds": ds})
    val = lambda: [mul * rng.randint(-40, 40) for _ in range(rng.choice([1, 1, 2]))]
    ax, ay = ds["vars"][gx]["d"], ds["vars"][gy]["d"]
    same = rng.random() < 0.5      # a process before the interpolation sees the part of the field that is needed: here all of it
    pre = val() if same else []
    post = [] if pre and rng.random() < 0.5 else val()
    drv.do({"op": "interp", "id": "i", "from": "s", "pre": pre, "post": post})
    if same:
        xs, ys = list(ax), list(ay)
    else:
        xs = sorted(set(c14.between(rng, ax, m) for _ in range(rng.randint(1, 5))))
        ys = sorted(set(c14.between(rng, ay, m) for _ in range(rng.randint(1, 5))))
        xs = [x for x in xs if -180 <= x < 360] or [ax[0]]
        ys = [y for y in ys if -90 <= y <= 90] or [ay[0]]
    drv.do({"op": "interpto", "id": "i", "m": m, "proj": c14.LL, "xs": xs, "ys": ys, "q": 1, "r": 320 if m == "nearestneighbor" else 4,
            "xu": "degree", "yu": "degree", "xt": "double", "yt": "double", "g": {"x": gx, "y": gy, "deg": 1}})
    c14.look(rng, drv, ds, gx, gy, deg)
