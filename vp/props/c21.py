from ..gen import *
from . import c03, c05, c07, c08, c10, c11, c12, c13, c14, c17, c22, c24

FAMILIES = [("locks", 700, 8000), ("parallel", 500, 8000), ("accumulated", 400, 6000), ("writers", 500, 6000), ("forks", 400, 4000), ("faults", 800, 8000)]
MUST = ["monitor", "par", "forkread", "write", "threads", "ncfault"]
ASSUMPTIONS = ["netCDF/HDF5 and udunits are safe when one lock serialises all calls; freeing separate objects needs no lock",
               "locks are those of OpenMP (set_lock, critical) and of pthreads",
               "forked readers do not enter OpenMP regions (libgomp does not support that after fork)"]
ENV = c14.ENV
REPEAT = 6
MODELS = {"quick": [("MC_Threads.tla", "MC_Threads.cfg", 2)], "thorough": [("MC_Threads.tla", "MC_Threads_big.cfg", 3), ("MC_Threads.tla", "MC_Threads_long.cfg", 3)]}

OTHERS = [c03.chain, c05.files, c07.acc, c08.pipes, c10.interpol, c11.puts, c11.fills, c11.translated, c12.plain, c12.configured, c13.packed,
          c14.grids, c14.stations, c17.fixed, c17.other, c22.reading, c22.writing, c24.units, c24.reference]


def locks(rng, drv, tier):
    """the discipline on locks, along what the other properties' scenarios do"""
    drv.do({"op": "threads", "n": rng.choice([1, 2, 4])})
    drv.do({"op": "monitor", "on": 1})
    rng.choice(OTHERS)(rng, drv, tier)
    drv.do({"op": "monitor", "on": 0, "env": {}})


def again(rng, drv, since=0, maxlen=400):
    """the reads made so far, each answered then with this many values at most"""
    r = []
    for c, o in drv.events[since:]:
        if c["op"] == "read" and len(o.get("d", [])) <= maxlen:
            r.append(c)
    return r


def spread(rng, cmds, n, k):
    return [[rng.choice(cmds) for _ in range(rng.randint(1, k))] for _ in range(n)]


def parallel(rng, drv, tier):
    a = len(drv.events)
    rng.choice([c03.chain, c05.direct, c07.acc, c08.pipes, c08.pipes, c10.interpol, c13.packed, c14.grids, c14.stations, c17.fixed, c17.other])(rng, drv, tier)
    cs = again(rng, drv, a)
    if not cs:
        return
    for _ in range(2):
        n = rng.randint(2, 3)
        drv.do({"op": "par", "reads": spread(rng, cs, n, 4), "sched": [rng.randrange(n) for _ in range(rng.randint(4, 24))]})


def accumulated(rng, drv, tier):
    """readers that remember something from one read to the next"""
    ds = c07.source(rng)
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    vs = sorted(ds["vars"])
    acc = rng.sample(vs, rng.randint(1, len(vs)))
    rest = [v for v in vs if v not in acc]
    if drv.do({"op": "proc", "id": "p", "from": "s", "acc": acc, "deacc": rng.sample(rest, rng.randint(0, len(rest)))})["st"] != "ok":
        return
    un = [x for x in ds["dims"] if ds["dims"][x]["u"]]
    n = ds["dims"][un[0]]["len"] if un else 1
    cs = [{"op": "read", "id": "p", "var": v, "mode": "raw", "pos": k} for v in vs for k in range(n)]
    for _ in range(2):
        t = rng.randint(2, 3)
        drv.do({"op": "par", "reads": spread(rng, cs, t, 4), "sched": [rng.randrange(t) for _ in range(rng.randint(4, 30))]})
    t = rng.randint(2, 4)
    drv.do({"op": "par", "reads": spread(rng, cs, t, 4), "sched": [], "rep": 60})
    for c in rng.sample(cs, min(len(cs), 3)):
        drv.do(c)


def writers(rng, drv, tier):
    """the writer reads variables side by side: its file is the same for any number of threads and any timing"""
    ds = c07.source(rng)
    prune(ds)
    if not ds["vars"]:
        return
    drv.do({"op": "src", "id": "s", "kind": "store", "ds": ds})
    last = "s"
    if rng.random() < 0.8:
        vs = sorted(ds["vars"])
        rng.shuffle(vs)
        k = rng.randint(0, len(vs))
        if drv.do({"op": "proc", "id": "p", "from": "s", "acc": vs[:k], "deacc": rng.sample(vs[k:], rng.randint(0, len(vs) - k))})["st"] == "ok":
            last = "p"
    for f in "ab":
        drv.do({"op": "threads", "n": rng.choice([1, 2, 4, 8]), "jitter": rng.choice([0, rng.randrange(1, 99999)])})
        if drv.do({"op": "write", "from": last, "file": f, "type": "netcdf4", "cfg": {}})["st"] != "ok":
            break
        drv.do({"op": "threads", "n": 2, "jitter": 0})
        drv.do({"op": "open", "id": f, "file": f})
        o = drv.do({"op": "desc", "id": f})
        for v in sorted(o.get("vars", {})):
            drv.do({"op": "read", "id": f, "var": v, "mode": "raw"})
    drv.do({"op": "threads", "n": 2, "jitter": 0})


def forks(rng, drv, tier):
    ty = rng.choice(["netcdf3", "netcdf4", "netcdf4"])
    ds = c12.src(rng, ty == "netcdf3")
    prune(ds)
    if not ds["vars"]:
        return
    drv.do({"op": "src", "id": "m", "kind": "mem", "ds": ds})
    if drv.do({"op": "write", "from": "m", "file": "a", "type": ty, "cfg": {}})["st"] != "ok":
        return
    drv.do({"op": "open", "id": "o", "file": "a"})
    ids = ["o"]
    if rng.random() < 0.4:
        drv.do({"op": "extract", "id": "e", "from": "o"})
        ids.append("e")
    if rng.random() < 0.3:
        drv.do({"op": "open", "id": "o2", "file": "a"})
        ids.append("o2")
    a = len(drv.events)
    for i in ids:
        reads(rng, drv, i, 4)
    cs = again(rng, drv, a)
    if not cs:
        return
    for _ in range(rng.choice([1, 1, 2])):
        drv.do({"op": "forkread", "own": spread(rng, cs, 1, 3)[0], "kids": spread(rng, cs, rng.randint(1, 3), 4)})
        drv.do(rng.choice(cs))


def faults(rng, drv, tier):
    """netCDF calls that fail: the error leaves no lock behind and everything else goes on"""
    ty = rng.choice(["netcdf3", "netcdf4", "netcdf4"])
    ds = c12.src(rng, ty == "netcdf3")
    prune(ds)
    if not ds["vars"]:
        return
    drv.do({"op": "src", "id": "m", "kind": "mem", "ds": ds})
    for f in "ab":
        if drv.do({"op": "write", "from": "m", "file": f, "type": ty, "cfg": {}})["st"] != "ok":
            return
    drv.do({"op": "open", "id": "o", "file": "a"})
    d = drv.do({"op": "desc", "id": "o"})
    dims = desc_dims(d)
    vs = sorted(d.get("vars", {}))
    if not vs:
        return
    a = len(drv.events)
    reads(rng, drv, "o", 3)
    cs = again(rng, drv, a)
    drv.do({"op": "monitor", "on": 1})
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, 2, 3, 4, 5, 6, rng.randint(1, 12), rng.randint(1, 60)])
        k = rng.random()
        if k < 0.25 and cs:
            cmd = rng.choice(cs)
            n = rng.randint(1, 6)
        elif k < 0.45:
            cmd = {"op": "open", "id": "t", "file": rng.choice("ab")}
        elif k < 0.65:
            cmd = {"op": "write", "from": "m", "file": "c", "type": ty, "cfg": {}}
            n = rng.choice([n, rng.randint(1, 150)])
        elif k < 0.7:
            cmd = {"op": "open", "id": "t", "file": "missing"}
        else:
            v = rng.choice(vs)
            un = [x for x in ds["dims"] if ds["dims"][x]["u"]]
            sh = ds["vars"][v]["sh"]
            drv.do({"op": "rw", "id": "h", "file": "b"})
            size = prod(1 if x in un else dims.get(x, 1) for x in sh)
            cmd = {"op": "put", "id": "h", "var": v, "mode": rng.choice(["raw", "scaled"]), "t": ds["vars"][v]["t"], "d": [1] * size}
            if rng.random() < 0.5:
                cmd["pos"] = 0
            else:
                cmd["sl"] = {x: [0, 1] for x in un if x in sh}
            n = rng.randint(1, 8)
            drv.do({"op": "ncfault", "n": n, "cmd": cmd, "env": {}})
            drv.do({"op": "write", "from": "m", "file": "b", "type": ty, "cfg": {}})
            continue
        drv.do({"op": "ncfault", "n": n, "cmd": cmd, "env": {}})
        if cs:
            drv.do(rng.choice(cs))
    drv.do({"op": "monitor", "on": 0, "env": {}})
