"""bin/check <property> <quick|thorough>"""
import concurrent.futures as cf
import importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

from . import build as B
from . import core as C


def mc_run(spec, cfg, workers=2, timeout=600, extra=()):
    """exhaustive TLC run of a model; returns (states, distinct)"""
    d = tempfile.mkdtemp(prefix="mc")
    try:
        cmd = C.JAVA + ["-Xmx4g", "tlc2.TLC", "-nowarning", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "m"),
                        "-config", os.path.join(C.SPECS, cfg), *extra, os.path.join(C.SPECS, spec)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
        out = r.stdout.decode(errors="replace")
        if r.returncode != 0 or "No error has been found" not in out:
            raise C.ModelError("model %s/%s fails\n%s" % (spec, cfg, out[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        return int(m.group(1)), int(m.group(2)), out
    except subprocess.TimeoutExpired:
        raise C.ModelError("model %s/%s timed out" % (spec, cfg))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "vp.props.%s" % prop.lower()
    mod = importlib.import_module(modname)
    rep = C.Report(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    rep.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    module = getattr(mod, "MODULE", "FimexTrace")
    env = getattr(mod, "ENV", None)
    pool = cf.ThreadPoolExecutor(4)
    # exhaustive models of the specification itself run beside the build
    models = [pool.submit(mc_run, s, c, w) for s, c, w in getattr(mod, "MODELS", {}).get(tier, getattr(mod, "MODELS", {}).get("quick", []))]
    gens = getattr(mod, "BEHAVIOURS", None)
    built = B.build(getattr(mod, "FLAVOUR", "std"))
    print("built in %.0f s" % built["seconds"], flush=True)
    scens = []
    fams = mod.FAMILIES
    if os.environ.get("VP_FAM") or os.environ.get("VP_DIV"):     # development: some families, fewer scenarios
        only = os.environ.get("VP_FAM")
        fams = [(f, a // int(os.environ.get("VP_DIV", "1")) or 1, b) for f, a, b in fams if not only or f in only.split(",")]
    budget = 60 if tier == "quick" else 420
    jobs = []
    for fam, nq, nt in fams:
        n = nq if tier == "quick" else nt
        seeds = ["%s/%s/%d/%d" % (prop, fam, seed, k) for k in range(n)]
        per = max(1, (len(seeds) + C.WORKERS - 1) // C.WORKERS)
        for a in range(0, len(seeds), per):
            jobs.append((built, modname, fam, seeds[a:a + per], tier, budget))
    t = time.time()
    with cf.ProcessPoolExecutor(C.WORKERS) as ex:
        for r in ex.map(C.chunk_worker, jobs):
            scens += r
    if hasattr(mod, "behaviours"):
        scens += mod.behaviours(built, tier, seed)
    nsc = len(scens)
    want = sum((f[1] if tier == "quick" else f[2]) for f in fams)
    print("%d of %d scenarios executed in %.0f s" % (nsc, want, time.time() - t), flush=True)
    if nsc == 0:
        raise C.ModelError("no scenario was executed")
    t = time.time()
    bad, st = C.check_scenarios(scens, module)
    print("%d events checked by TLC in %.0f s, %d scenarios rejected, %d died" % (
        st["events"], time.time() - t, len(bad), sum(1 for s in scens if s["died"])), flush=True)
    for s, why in st["undecided"][:3]:
        print("the specification does not decide scenario %s: %s" % (s["seed"], why[:1500]), flush=True)
        if os.environ.get("VP_DUMP"):
            json.dump(dict(commands=[c for c, _ in s["events"]]), open(os.environ["VP_DUMP"], "w"))
    if len(st["undecided"]) > max(3, nsc // 200) and not bad:
        raise C.ModelError("too many scenarios are not decided")
    rep.cov["undecided"] = len(st["undecided"])
    rep.cov["events"] = st["events"]
    rep.cov["transitions"] = st["events"]
    rep.cov["states"] = st["states"]
    rep.cov["samples"] = nsc
    rep.cov["traces_validated_against_impl"] = sum(1 for s in scens if not s["died"])
    ops = {}
    for s in scens:
        for c, o in s["events"]:
            k = c["op"] + ("." + c["do"] if "do" in c else "")
            ops.setdefault(k, [0, 0])
            ops[k][0 if o.get("st") == "ok" else 1] += 1
    rep.cov["operations"] = {k: dict(ok=v[0], err=v[1]) for k, v in sorted(ops.items())}
    rep.cov["families"] = {f[0]: sum(1 for s in scens if s["fam"] == f[0]) for f in fams}
    mcs = []
    for f in models:
        a, b, _ = f.result()
        mcs.append(dict(generated=a, distinct=b))
        rep.cov["states"] += b
        rep.cov["transitions"] += a
    rep.cov["models"] = mcs
    # vacuity: each family must mostly have worked
    for k in getattr(mod, "MUST", []):
        if ops.get(k, [0, 0])[0] == 0 and not bad and not any(s["died"] for s in scens):
            raise C.ModelError("nothing exercised %s" % k)
    # confirm: only what repeats in a fresh process counts
    known = [k for k in C.load_findings() if k[0] == prop]
    seenk = {}
    confirmed = 0
    size = lambda x: len(x[0]["events"])
    wrong = sorted(((s, k) for s, k, e in bad), key=size)
    dead = sorted(((s, len(s["events"]) - 1) for s in scens if s["died"]), key=size)
    n = 12 if tier == "quick" else 30
    suspects = [(s, k, 0) for s, k in wrong[:n] + dead[:n]]
    # what depends on the earlier commands of the process (memory that is written where it should not be)
    byseed = {s["seed"]: s for s in scens}
    suspects += [(s, k, h) for h in (20, 400) for s, k in dead[-2:] + wrong[-1:]]
    t = time.time()
    for s, k, h in suspects:
        if h and (confirmed or time.time() - t > 200):
            break
        cmds = [c for c, _ in s["events"]]
        p = s
        for _ in range(h):
            p = byseed.get(p.get("prev"))
            if p is None:
                break
            cmds = [c for c, _ in p["events"]] + cmds
        v = None
        for _ in range(getattr(mod, "REPEAT", 1)):     # what depends on a schedule may need several attempts
            try:
                v = C.verdict(built, cmds, module, env)
            except C.ModelError:
                v = None
            if v is not None:
                break
        if v is None:
            print("not repeated: seed %s event %d after %d scenarios" % (s["seed"], k, h), flush=True)
            continue
        cmds = cmds[:v[0] + 1]
        key = mod.finding_key(cmds, v) if hasattr(mod, "finding_key") else None
        hit = [f for f in known if f[1] == key]
        if hit:
            if key not in seenk:
                seenk[key] = 1
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]), flush=True)
            continue
        confirmed += 1
        if confirmed == 1 and not h and not os.environ.get("VP_NOSHRINK"):
            cmds, v = C.shrink(built, cmds, module, env)
        p = C.save_replay(prop, s["fam"], cmds, v, s["seed"], module)
        rep.violations.append(p)
        print("  family %s, command %s\n  expected %s\n  observed %s" % (s["fam"], json.dumps(cmds[-1])[:600], str(v[1])[:800], json.dumps(v[2])[:800]))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        if confirmed >= 3:
            break
    rep.write()
    return 1 if rep.violations else 0


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    try:
        sys.exit(run(prop, tier))
    except (C.ModelError, B.BuildError) as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    main()
