#!/usr/bin/env python3
"""writes the fixed: entries of known_findings.txt from the fix commits in /repo; fixprops.txt says which property each belongs to"""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", os.environ.get("VP_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
props = {}
for l in open(os.path.join(V, "tools", "fixprops.txt")):
    p, s = l.strip().split(" ", 1)
    props[s] = p
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s" % (props[s[5:]], h, s[5:]))
p = os.path.join(V, "known_findings.txt")
keep = [l.rstrip("\n") for l in open(p) if not l.startswith("fixed: ")] if os.path.exists(p) else []
open(p, "w").write("\n".join([l for l in keep if l] + out) + "\n")
