#!/usr/bin/env python3
"""tools/mkseed.py [ID..]: writes /verif/seeded/<ID> from tools/seeds/<ID>.py:
PROP, FILE, OLD, NEW (or EDITS [(file, old, new)]), NEEDS, BREAKS, DEMO (body of main)"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [f[:-3] for f in sorted(os.listdir(os.path.join(V, "tools/seeds"))) if f.endswith(".py")]
for i in ids:
    m = runpy.run_path(os.path.join(V, "tools/seeds", i + ".py"))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    edits = m.get("EDITS") or [(m["FILE"], m["OLD"], m["NEW"])]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
    try:
        for f, o, n in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(o) == 1, (i, f, s.count(o))
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump(dict(property=m["PROP"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(V, "tools/seedlib/demo.h"), d)
    shutil.copy(os.path.join(V, "tools/seedlib/demo.sh"), d)
    inc = "".join('#include "%s"\n' % x for x in m.get("INC", []))
    open(os.path.join(d, "demo.cc"), "w").write(inc + '#include "demo.h"\n' + m.get("PRE", "") + "int main()\n{\n" + m["DEMO"].strip("\n") + "\n    return bad ? 1 : 0;\n}\n")
    print(i)
