"""C26: tags (Tags.tla)."""
import random
from vlib import *
import httpsinks, prometheus

ODD = ["", " ", "host", "a=b", "ключ", "x\n", "\0", "z" * 5000, "Host", "a b c", "\"q\"", "0"]
PLAIN = ["source", "k1", "zone", "_x", "host_name", "Q9"]
VALUES = [["a", "b", "c"], ["1", "", "2"], ["x y", "x=y", "x"], ["grün", "gruen", "v" * 4000], ["same", "Same", "same "]]
PLAINV = [["a", "b", "c"], ["1", "2.5", "-3"], ["grün", "x/y:z", "v" * 400], ["x", "X", "x.x"]]
KINDS = ["set", "sum", "summ", "hist"]

def case(rnd, b, cid, n, out):
    keys = rnd.sample(PLAIN if out else ODD, n)
    vals = rnd.choice(PLAINV if out else VALUES)
    def m(t): return [[k, vals[v - 1]] for k, v in zip(keys, t) if v]
    count = len(b["own"])
    if out: objs = [dict(name="m%d.x" % i, kind=rnd.choice(KINDS)) for i in range(count)]
    else: objs = [dict(name=rnd.choice(["m", "m", "m", "n"]), kind=rnd.choice(["set", "set", "sum"])) for i in range(count)]
    steps, prev = [], []
    for s in b["steps"]:
        k = s["k"] and keys[s["k"] - 1]
        steps.append(dict(a=s["a"], o=s["o"], k=k or "", v=vals[s["v"] - 1] if s["v"] else "", m=m(s["m"]) if s["a"] == "map" else []))
        if s["a"] in ("ins", "del"): prev.append([vals[s["prev"] - 1] if s["prev"] else None] * 2)
    rnd_m = lambda x: rnd.sample(x, len(x))
    dflt = dict(m(b["dflt"]))
    own = [dict(m(t)) for t in b["own"]]
    shown = [dict(m(t)) for t in b["shown"]]
    pairs = lambda d: sorted([list(x) for x in d.items()], key=lambda kv: (kv[0].encode(), kv[1].encode()))
    exp = dict(prev=prev, objs=[dict(tel=pairs(s), log=pairs(s), own=pairs(o), lown=pairs(o), get=[[s.get(k)] * 2 + [o.get(k)] * 2 for k in keys]) for s, o in zip(shown, own)],
               same=[[own[x] == own[y] and objs[x] == objs[y], own[x] == own[y] and objs[x]["name"] == objs[y]["name"]] for x in range(count) for y in range(x)], out=None)
    if out:
        wf = []
        for o, s in zip(objs, shown):
            names = {"hist": ["_1", "_10", "_pos_inf"], "summ": [".min", ".count", ".mean"]}.get(o["kind"], [""])
            wf += [[o["name"] + x, s] for x in names]
        inf = []
        for o, s in zip(objs, shown):
            names = {"hist": [".le_1", ".le_10", ".le_inf"], "summ": [".%g" % q for q in httpsinks.QS]}.get(o["kind"], [""])
            inf += [[o["name"] + x, s] for x in names]
        exp["out"] = dict(influx=inf, elastic=shown, wavefront=sorted(wf, key=str), points=shown, lines=shown, json=shown, console=[sorted("%s=%s" % kv for kv in s.items()) for s in shown],
                          prom={prometheus.metric_name(o["name"]): [list(x) for x in sorted(s.items())] for o, s in zip(objs, shown)})
    return dict(id=cid, keys=keys, dflt=rnd_m(m(b["dflt"])), objs=objs, steps=steps, out=out, time=str(rnd.choice([1500000000, 1500000000, 0, -1, -2**63, 2**63 - 1, 2**40])), expect=exp)

def observe(r):
    o = r.get("obs")
    if not isinstance(o, dict) or not o.get("out"): return o
    out = o["out"]
    body = out["prom"]
    if body.get("status") == 200:
        ms = prometheus.parse(body["body"])
        out["prom"] = ms if "invalid" in ms else {n: json.loads(list(x["series"])[0]) if len(x["series"]) == 1 else x for n, x in ms.items()}
    out["wavefront"] = sorted(out["wavefront"], key=str) if all(x[0] is not None for x in out["wavefront"]) else out["wavefront"]
    lines = [httpsinks.parse(l) for l in out["influx"].split("\n")[:-1]]
    out["influx"] = [list(l[:2]) if l else l for l in lines]
    out["elastic"] = [{k: v for k, v in d.items() if k not in ("uuid", "path", "payload", "timestamp")} for d in out["elastic"]]
    out["console"] = [sorted(x) for x in out["console"]]
    return o

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    jobs = [("Tags", "every operation on two items", dict(constants=dict(Keys={1, 2}, Vals=2, Objs={1, 2}, MaxSteps=8 if th else 5, MaxKeys=2), view="View", action_constraints=["Emit"], invariants=["OwnWins"], properties=["OthersUntouched"], workers=1)),
            ("Tags", "every history of one item", dict(constants=dict(Keys={1, 2}, Vals=2, Objs={1}, MaxSteps=3, MaxKeys=1), action_constraints=["Emit"], invariants=["OwnWins"], workers=1)),
            ("Tags", "three keys", dict(constants=dict(Keys={1, 2, 3}, Vals=2, Objs={1}, MaxSteps=6, MaxKeys=2), view="View", action_constraints=["Emit"], invariants=["OwnWins"], properties=["OthersUntouched"], workers=1)),
            ("Tags", "sampled histories", dict(constants=dict(Keys=set(range(1, 7)), Vals=3, Objs={1, 2, 3}, MaxSteps=25, MaxKeys=6), init="InitSim", next="NextSim", invariants=["EmitDeep"], simulate=chk.pick(600, 6000), depth=26, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n, keys, outs in zip(rs, chk.pick([4000, 3000, 3000, 600], [60000, 30000, 30000, 6000]), (2, 2, 3, 6), (8, 8, 8, 2)):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for i, b in enumerate(em): cases.append(case(rnd, b, "t%d" % len(cases), keys, i % outs == 0))
    rnd.shuffle(cases)
    res = harness(chk.work, "tags", cases, workers=16, timeout=800)
    chk.compare(cases, res, lambda c: c["expect"], observe=observe)
    chk.sample(cases[0]["steps"][:5])
    chk.cov["cases"] = dict(operations=len(cases), outputs=sum(c["out"] for c in cases))
    chk.assumptions.append("outputs observed: Wavefront, native, console (log lines; it shows no tags of metrics), Prometheus, InfluxDB, Elasticsearch and the JSON encoding")
