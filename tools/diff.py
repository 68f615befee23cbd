"""Where the first violations of a replay file differ: tools/diff.py FILE [N]"""
import json, sys
def diff(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)): diff(a.get(k), b.get(k), p + "/" + str(k))
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)): diff(x, y, p + "/%d" % i)
    elif a != b: print(p, "\n  EXPECTED", json.dumps(a)[:200], "\n  OBSERVED", json.dumps(b)[:200])
d = json.load(open(sys.argv[1]))
for v in d["violations"][:int(sys.argv[2]) if len(sys.argv) > 2 else 1]:
    r = v["replay"]
    print("==", v.get("what"), r.get("case", {}).get("id") if isinstance(r, dict) else "")
    if "expected" in r: diff(r["expected"], r["observed"])
    else: print(json.dumps(r)[:1500])
