import json, sys
from . import build as B, core as C
r = json.load(open(sys.argv[1]))
b = B.build("grib" if r["property"] == "C20" else "std")
v = C.verdict(b, r["commands"], r["module"])
for c in r["commands"]:
    print(json.dumps(c)[:2000])
print("allowed" if v is None else "rejected at %d\nexpected %s\nobserved %s" % (v[0], v[1], json.dumps(v[2])))
sys.exit(0 if v is None else 1)
