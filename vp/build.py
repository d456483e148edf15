"""Builds libfimex and its io plugins from /repo's current working tree, and the
command executor (fxdrv) against them.  Everything lands in /verif/build."""
import fcntl, filecmp, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SKIP = {".git", "_build", "__pycache__"}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", CC="/usr/bin/gcc", CXX="/usr/bin/g++", CCACHE_DISABLE="1")
    return e


def sync(src, dst):
    """mirror src into dst by content, so that unchanged files keep their time stamps"""
    os.makedirs(dst, exist_ok=True)
    want = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = [d for d in dirs if d not in SKIP and not (rel == "." and d in ("test", "debian_files", "debian_jammy", "debian_noble", "debian_resolute"))]
        for d in dirs:
            os.makedirs(os.path.join(dst, rel, d), exist_ok=True)
        for f in files:
            s = os.path.join(root, f)
            d = os.path.join(dst, rel, f)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            want.add(os.path.normpath(os.path.join(rel, f)))
            if not os.path.exists(d) or not filecmp.cmp(s, d, shallow=False):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(s, d)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            if os.path.normpath(os.path.join(rel, f)) not in want:
                os.unlink(os.path.join(root, f))


def run(cmd, log, cwd=None):
    with open(log, "ab") as lf:
        lf.write(("\n$ " + " ".join(cmd) + "\n").encode())
        lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=_env(), cwd=cwd)
    if r.returncode != 0:
        tail = open(log, errors="replace").read()[-6000:]
        raise BuildError("failed: %s\n%s" % (" ".join(cmd)[:300], tail))


# which io plugins a build provides; keep the number of flavours small
FLAVOURS = {
    "std": dict(flags="-O1 -DNDEBUG", targets=["libfimex", "libfimex-io-netcdf"]),
    "grib": dict(flags="-O1 -DNDEBUG", targets=["libfimex", "libfimex-io-netcdf", "libfimex-io-grib"]),
    "felt": dict(flags="-O1 -DNDEBUG", targets=["libfimex", "libfimex-io-netcdf", "libfimex-io-felt"]),
    "asan": dict(flags="-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-omit-frame-pointer", targets=["libfimex", "libfimex-io-netcdf"], san=True),
}


def build(flavour="std", quiet=False):
    """returns a dict with what is needed to run fxdrv"""
    fl = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    bdir = os.path.join(BUILD, "asan" if fl.get("san") else "b")
    src = os.path.join(BUILD, "src")
    log = os.path.join(BUILD, "build-%s.log" % flavour)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        sync(REPO, src)
        # /repo/test has a CMakeLists that the top level file may add unconditionally
        os.makedirs(os.path.join(src, "test"), exist_ok=True)
        for f in ("CMakeLists.txt",):
            p = os.path.join(src, "test", f)
            if not os.path.exists(p):
                open(p, "w").close()
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            run(["cmake", "-S", src, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                 "-DCMAKE_CXX_FLAGS=" + fl["flags"], "-DCMAKE_C_FLAGS=" + fl["flags"],
                 "-DBUILD_TESTING=OFF", "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=" + os.path.join(VERIF, "harness", "skip-mi.cmake"),
                 "-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja",
                 "-DENABLE_NETCDF=ON", "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON", "-DENABLE_ECCODES=ON",
                 "-DENABLE_LOG4CPP=ON", "-DENABLE_FIMEX_OMP=ON", "-DENABLE_FORTRAN=OFF", "-DENABLE_PYTHON=OFF"], log)
        # library and executor objects compile side by side
        hdir = os.path.join(VERIF, "harness")
        hobj = os.path.join(bdir, "fxobj")
        os.makedirs(hobj, exist_ok=True)
        srcs = sorted(f for f in os.listdir(hdir) if f.startswith("fx_") and f.endswith(".cc"))
        hn = os.path.join(hobj, "build.ninja")
        extra = "-fsanitize=address,undefined" if fl.get("san") else ""
        text = ["builddir = " + hobj,
                "cxxflags = -std=gnu++20 -O0 -fopenmp -DNDEBUG %s -I%s/include -I%s/src -I%s/src -I%s/src/io/netcdf -isystem /usr/include/libxml2" % (extra, src, bdir, src, src),
                "rule cxx\n  command = g++ $cxxflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                "rule link\n  command = g++ $cxxflags -rdynamic -o $out $in -L%s/src -lfimex-2.4 -Wl,-rpath,%s/src -lpthread -ldl -Wl,--no-as-needed -lnetcdf -ludunits2" % (bdir, bdir)]
        lib = next((l for l in (["-lfimex-2.4"])), "")
        objs = []
        for f in srcs:
            o = os.path.join(hobj, f[:-3] + ".o")
            objs.append(o)
            text.append("build %s: cxx %s" % (o, os.path.join(hdir, f)))
        text.append("build %s: phony %s" % ("objs", " ".join(objs)))
        drv = os.path.join(bdir, "fxdrv")
        text.append("build %s: link %s | %s/src/libfimex-2.4.so" % (drv, " ".join(objs), bdir))
        t = "\n".join(text) + "\n"
        if not os.path.exists(hn) or open(hn).read() != t:
            open(hn, "w").write(t)
        # configured headers exist after cmake; one ninja for the library, then one for fxdrv
        p = subprocess.Popen(["ninja", "-C", hobj, "-f", hn, "-j4", "objs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
        try:
            run(["ninja", "-C", bdir, "-j8"] + fl["targets"], log)
        finally:
            out = p.communicate()[0]
        if p.returncode != 0:
            raise BuildError("harness does not compile\n" + out.decode(errors="replace")[-6000:])
        # the so name carries the version; link what is there
        so = [f for f in os.listdir(os.path.join(bdir, "src")) if f.startswith("libfimex") and f.endswith(".so")]
        if "libfimex-2.4.so" not in so:
            raise BuildError("library name changed: %s" % so)
        run(["ninja", "-C", hobj, "-f", hn, "-j8", drv], log)
    plug = ":".join(os.path.join(bdir, "src/io", x) for x in ("netcdf", "grib", "felt"))
    return dict(drv=drv, plugins=plug, bdir=bdir, src=src, seconds=time.time() - t0)


if __name__ == "__main__":
    try:
        b = build(sys.argv[1] if len(sys.argv) > 1 else "std")
        print("built %s in %.1f s" % (b["drv"], b["seconds"]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
