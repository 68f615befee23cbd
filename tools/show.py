#!/usr/bin/env python3
"""Show the difference between what was expected and observed in a replay file: tools/show.py replays/C12.json [n]"""
import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
v = d["violations"][n]
r = v["replay"]
print(len(d["violations"]), "violations;", v["what"])
def diff(e, o, path):
    if e == o: return
    if isinstance(e, dict) and isinstance(o, dict):
        for k in sorted(set(e) | set(o)): diff(e.get(k), o.get(k), path + "/" + str(k))
    elif isinstance(e, list) and isinstance(o, list):
        if len(e) == len(o) and not all(isinstance(x, str) for x in e + o):
            for i, (a, b) in enumerate(zip(e, o)): diff(a, b, path + "/" + str(i))
        else:
            o2 = list(o); missing = []
            for x in e:
                if x in o2: o2.remove(x)
                else: missing.append(x)
            print("DIFF", path, "(%d expected, %d observed)" % (len(e), len(o)))
            for x in missing[:12]: print("   missing ", str(x)[:300])
            for x in o2[:12]: print("   surplus ", str(x)[:300])
            if not missing and not o2: print("   order:", str(e)[:400], str(o)[:400])
    else:
        print("DIFF", path, "\n   expected", str(e)[:1500], "\n   observed", str(o)[:1500])
if "expected" in r:
    diff(r["expected"], r["observed"], "")
else:
    print(json.dumps(r)[:3000])
if "-c" in sys.argv or len(json.dumps(r.get("case", ""))) < 2500:
    c = dict(r.get("case") or {}); c.pop("expect", None)
    print(json.dumps(c))
