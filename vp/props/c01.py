from ..gen import *

FAMILIES = [("history", 2500, 25000)]
MUST = ["cdm.renvar", "cdm.rendim", "cdm.rmdim", "cdmq"]
DIMS = ["x", "y", "z"]
VARS = ["a", "b", "c", "x"]
ATTS = ["units", "standard_name", "n"]
VALS = ["m", "K", "foo_bar", "deg C"]


def att(rng):
    if rng.random() < 0.6:
        return satt(rng.choice(VALS))
    t = rng.choice(ALL)
    return natt(t, *[rng.randint(0, 100) for _ in range(rng.randint(1, 3))])


def history(rng, drv, tier):
    unl = {}
    ids = ["m"]
    for _ in range(rng.randint(8, 22)):
        i = rng.choice(ids)
        r = rng.random()
        v = rng.choice(VARS)
        d = rng.choice(DIMS)
        c = {"op": "cdm", "id": i}
        if r < 0.16:
            u = 0
            if not unl.get(i) and rng.random() < 0.2:
                u = unl[i] = 1
            c.update(do="adddim", name=d, len=rng.randint(0, 5), u=u)
        elif r < 0.32:
            c.update(do="addvar", name=v, t=rng.choice(ALL), sh=rng.sample(DIMS, rng.randint(0, 3)))
        elif r < 0.44:
            c.update(do="addatt", var=rng.choice(VARS + ["_GLOBAL"]), name=rng.choice(ATTS), val=att(rng))
        elif r < 0.52:
            c.update(do="setatt", var=rng.choice(VARS + ["_GLOBAL"]), name=rng.choice(ATTS), val=att(rng))
        elif r < 0.57:
            c.update(do="rmatt", var=rng.choice(VARS + ["_GLOBAL"]), name=rng.choice(ATTS))
        elif r < 0.62:
            c.update(do="rmvar", name=v)
        elif r < 0.70:
            c.update(do="renvar", name=v, to=rng.choice(VARS))
        elif r < 0.75:
            c.update(do="rmdim", name=d, force=rng.randint(0, 1))
        elif r < 0.84:
            c.update(do="rendim", name=d, to=rng.choice(DIMS), force=rng.randint(0, 1))
        elif r < 0.88:
            n = "m%d" % len(ids)
            if len(ids) < 3:
                o = drv.do({"op": "cdm", "id": i, "do": "rmvar", "name": "nonesuch"})
                drv.do({"op": "cdmcopy", "id": n, "from": i})
                ids.append(n)
                unl[n] = unl.get(i)
            continue
        else:
            q = rng.choice(["var", "dim", "unlim", "find", "find"])
            c = {"op": "cdmq", "id": i, "q": q}
            if q == "var":
                c["name"] = v
            elif q == "dim":
                c["name"] = d
            elif q == "find":
                c["want"] = {a: rng.sample(VALS, rng.randint(1, 2)) for a in rng.sample(ATTS[:2], rng.randint(0, 2))}
                c["dims"] = rng.sample(DIMS, rng.choice([0, 0, 1, 2]))
        drv.do(c)
