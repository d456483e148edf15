"""Executes scenarios on the real library (fxdrv), checks the recorded
behaviour against the TLA+ specification with TLC, and reports."""
import concurrent.futures as cf
import hashlib, importlib, json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, time

from . import build as B

VERIF = B.VERIF
SPECS = os.path.join(VERIF, "specs")
JAVA = ["java", "-XX:+UseSerialGC", "-Xss64m", "-XX:TieredStopAtLevel=4",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
WORKERS = int(os.environ.get("VP_WORKERS", "8"))


class ModelError(Exception):
    """the machinery failed; says nothing about the code"""


class Died(Exception):
    pass


class Driver:
    """one fxdrv process; do(cmd) returns the observation"""

    def __init__(self, built, env=None):
        self.built = built
        self.dir = tempfile.mkdtemp(prefix="fx")
        e = dict(os.environ, FIMEX_IO_PLUGINS_PATH=built["plugins"], LC_ALL="C.UTF-8", OMP_NUM_THREADS="2", TZ="UTC")
        e.update(env or {})
        self.p = subprocess.Popen([built["drv"], self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(self.dir, "stderr"), "wb"), env=e, cwd=self.dir)
        self.events = []

    def do(self, cmd):
        line = json.dumps(cmd, separators=(",", ":"))
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            ans = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            ans = b""
        if not ans:
            rc = self.p.wait()
            err = open(os.path.join(self.dir, "stderr"), errors="replace").read()[-2000:]
            if rc == 3:
                raise ModelError("fxdrv refused a command: %s\n%s" % (line[:500], err))
            self.events.append((cmd, {"st": "died", "rc": rc}))
            raise Died("%d %s" % (rc, err))
        obs = json.loads(ans)
        self.events.append((cmd, obs))
        return obs

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()
            self.p.wait()
        try:
            self.p.stdout.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


def chunk_worker(args):
    """generate and execute scenarios; returns events per scenario"""
    built, modname, fam, seeds, tier, budget = args
    mod = importlib.import_module(modname)
    drv = None
    prev = None
    out = []
    t0 = time.time()
    try:
        for s in seeds:
            if time.time() - t0 > budget:
                break
            if drv is None:
                drv = Driver(built, getattr(mod, "ENV", None))
            drv.events = []
            rng = random.Random(s)
            died = None
            try:
                drv.do({"op": "reset"})
                getattr(mod, fam)(rng, drv, tier)
            except Died as ex:
                died = str(ex)
                drv.close()
                ev = drv.events
                drv = None
                out.append(dict(seed=s, fam=fam, events=ev, died=died, prev=prev))
                prev = None
                continue
            out.append(dict(seed=s, fam=fam, events=drv.events, died=None, prev=prev))
            prev = s        # the scenario that ran before in the same process
    finally:
        if drv:
            drv.close()
    return out


STALL = 40      # seconds without progress after which the evaluation of a scenario is given up


def run_tlc(events, module="FimexTrace", timeout=800):
    """returns (consumed, {index: expected}, distinct states) for a list of (cmd, obs)"""
    n, exp, states, stuck = tlc_run(events, module, timeout)
    if stuck is not None:
        raise ModelError(stuck[1])
    return n, exp, states


def tlc_run(events, module="FimexTrace", timeout=800):
    """as run_tlc; the last item is None, or (index of the event that could not be evaluated, why)"""
    d = tempfile.mkdtemp(prefix="tlc")
    p = None
    try:
        tr = os.path.join(d, "trace.ndjson")
        with open(tr, "w") as f:
            for c, o in events:
                f.write(json.dumps({"c": c, "o": o}, separators=(",", ":")) + "\n")
        cmd = JAVA + ["-Xmx2500m", "tlc2.TLC", "-nowarning", "-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE",
                      "-config", os.path.join(SPECS, module + ".cfg"), os.path.join(SPECS, module + ".tla")]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, FX_TRACE=tr), cwd=d)
        parts, t0, last, stalled = [], time.time(), time.time(), False
        fd = p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], 1)
            if r:
                x = os.read(fd, 1 << 16)
                if not x:
                    break
                parts.append(x)
                if b'"AT"' in x or len(parts) < 8:
                    last = time.time()
            now = time.time()
            # until the trace is loaded there is nothing to tell
            if now - t0 > timeout or now - last > STALL + len(events) / 500:
                stalled = True
                p.kill()
                break
        p.wait()
        out = b"".join(parts).decode(errors="replace")
        exp = {}
        for k in re.findall(r'<<"MISMATCH", (\d+)>>', out):
            exp[int(k) - 1] = None
        for k, e in re.findall(r'<<"EXPECTED", (\d+), "(.*)">>', out):
            exp[int(k) - 1] = e.replace('\\"', '"').replace("\\\\", "\\")
        at = [int(k) for k in re.findall(r'<<"AT", (\d+)>>', out)]
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        ok = m and m.group(1) == m.group(2) and int(m.group(2)) == len(events) and "Error:" not in out
        if not ok:
            st = re.findall(r"^/\\ i = (\d+)", out, re.M)
            k = int(st[-1]) - 1 if st else at[-1] - 1 if at else -1
            out = re.sub(r'<<"AT", \d+>>\n', "", out)
            pos = out.find("Error:")
            inner = out.rfind("following error:")     # errors are wrapped in errors
            why = "TLC %s (%d events)\n%s\nat event %d: %s" % ("made no progress" if stalled else "did not check the trace", len(events),
                  out[inner + 17:inner + 400] if inner >= 0 else out[max(0, pos):pos + 1500] if pos >= 0 else out[-500:], k, json.dumps(events[k])[:1500])
            if k < 0:
                raise ModelError(why)
            return len(events), exp, k, (k, why)
        ms = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        return len(events), exp, int(ms.group(2)) if ms else 0, None
    finally:
        if p and p.poll() is None:
            p.kill()
            p.wait()
        if p:
            p.stdout.close()
        shutil.rmtree(d, ignore_errors=True)


def check_scenarios(scens, module="FimexTrace"):
    """TLC over many scenarios in parallel; returns (bad [(scenario, first bad index, expected)], stats)"""
    live = [s for s in scens if not s["died"]]
    # balance by size
    weights = [(sum(len(json.dumps(c)) + 200 for c, _ in s["events"]), s) for s in live]
    weights.sort(key=lambda x: -x[0])
    n = max(1, min(WORKERS, len(live)))
    bins = [[0, []] for _ in range(n)]
    for w, s in weights:
        b = min(bins, key=lambda x: x[0])
        b[0] += w
        b[1].append(s)

    undecided = []

    def one(b):
        todo = b[1]
        found, events, states = [], 0, 0
        while todo:
            ev, owner = [], []
            for j, s in enumerate(todo):
                for k, e in enumerate(s["events"]):
                    ev.append(e)
                    owner.append((j, k))
            n, exp, st, stuck = tlc_run(ev, module)
            # what lies behind the scenario that could not be evaluated is checked in another run
            end = len(todo) if stuck is None else owner[stuck[0]][0]
            first = {}
            for i in sorted(exp):
                j, k = owner[i]
                if j < end and j not in first:
                    first[j] = (todo[j], k, exp[i])
            found += list(first.values())
            events += n if stuck is None else stuck[0]
            states += st
            if stuck is None:
                break
            undecided.append((todo[end], stuck[1]))
            if len(undecided) > max(3, len(live) // 200):
                break
            todo = todo[end + 1:]
        return found, events, states

    bad, events, states = [], 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, bins):
            bad += r[0]
            events += r[1]
            states += r[2]
    return bad, dict(events=events, states=states, undecided=undecided)


def replay(built, cmds, env=None):
    """runs fixed commands in a fresh process: (events, died)"""
    drv = Driver(built, env)
    try:
        for c in cmds:
            drv.do(c)
        return drv.events, None
    except Died as ex:
        return drv.events, str(ex)
    finally:
        drv.close()


def verdict(built, cmds, module="FimexTrace", env=None):
    """None if the specification allows the behaviour, else (index, expected, observed)"""
    ev, died = replay(built, cmds, env)
    if died:
        return (len(ev) - 1, "an answer", ev[-1][1])
    n, exp, _ = run_tlc(ev, module)
    if exp:
        i = min(exp)
        return (i, exp[i], ev[i][1])
    return None


def shrink(built, cmds, module, env, limit=40):
    """drop commands that are not needed (bounded effort)"""
    v = verdict(built, cmds, module, env)
    if v is None:
        return cmds, v
    cmds = cmds[:v[0] + 1]
    i = len(cmds) - 2
    tries = 0
    while i >= 1 and tries < limit:
        t = cmds[:i] + cmds[i + 1:]
        tries += 1
        try:
            w = verdict(built, t, module, env)
        except ModelError:
            w = None
        if w is not None and w[0] == len(t) - 1:
            cmds, v = t, w
        i -= 1
    return cmds, v


# ---------------------------------------------------------------- findings
def load_findings():
    """known_findings.txt lines: 'property=C01 match=<regex on the failing command and observation> what...'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)$", line)
            if m:
                res.append(m.groups())
    return res


class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0, events=0)
        self.notes = []
        self.assumptions = []

    def write(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 1), assumptions=self.assumptions,
                  violations=len(self.violations))
        tmp = os.path.join(d, self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def save_replay(prop, fam, cmds, v, seed, module):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, family=fam, seed=seed, module=module, commands=cmds,
                failing=v[0], expected=v[1], observed=v[2])
    h = hashlib.sha1(json.dumps(cmds, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump(body, open(p, "w"), indent=1)
    return p
