"""C14: the Wavefront sink (Wavefront.tla)."""
import random
from vlib import *
from buckets import NOW, SERIES, build_tags

OWN = [dict(t) for t in sorted({tuple(sorted(t.items())) for _, t in SERIES if "" not in t and "" not in t.values()})]
BOUNDS = [2, 10, 64]
DEFAULTS = [{}, {"source": "dflt"}, {"source": "dflt", "k1": "d1"}, {"k1": "d1", "k2": "d2", "zone": "d3"}]

def fmt(p, name, tags):
    """The lines of one point: [name, value, time, tags] each."""
    v, ts = p["vals"], p["ts"]
    k = p["kind"]
    if k in ("set", "sum"):
        return [[name, v[0], ts, tags]]
    if k == "summ":
        mean = sum(v) / len(v)
        return [[name + ".min", min(v), ts, tags], [name + ".max", max(v), ts, tags], [name + ".count", len(v), ts, tags],
                [name + ".mean", int(mean) if mean == int(mean) else mean, ts, tags]]
    res = []
    for i, b in enumerate(BOUNDS + ["pos_inf"]):
        lo = BOUNDS[i - 1] if i else None
        res.append(["%s_%s" % (name, b), sum(1 for x in v if (lo is None or x > lo) and (b == "pos_inf" or x <= b)), ts, tags])
    return res

def key(l):
    """Means may differ in the last bits."""
    if isinstance(l, dict): return json.dumps(l)
    return json.dumps([l[0], "%.9g" % l[1] if isinstance(l[1], (int, float)) else l[1], l[2], l[3]], sort_keys=True)

FAR = [(0 - 2**63, 2**63 - 1), (0 - 2**62, 2**62), (0 - 2**63 + 1, 2**63 - 2)]

def case(rnd, b, cid):
    lo, hi = rnd.choice(FAR)
    def when(t):
        """Times beyond 50000 stand for extreme ones."""
        return {"abs": str(lo + t + 100000)} if t < -50000 else {"abs": str(hi + t - 100000)} if t > 50000 else t
    names = ["m", "n", "long.name.with.dots", "m1", "x-y_z"]
    pool = [(n, t) for n in names for t in OWN]
    conc = rnd.sample(pool, 6)
    dflt = rnd.choice(DEFAULTS)
    # values that are no numbers, in series without summaries and histograms
    kinds = {}
    for st in b["steps"]:
        if st["a"] == "add": kinds.setdefault(st["s"]["series"], set()).add(st["s"]["kind"])
    odd = {s: rnd.choice(["nan", "nan", "inf", "-inf"]) for s, k in kinds.items() if k <= {"set", "sum"} and rnd.random() < .1}
    def vals(s, v): return [odd[s] if x else 0 for x in v] if s in odd else v
    flushes = []
    for lines in list(b["out"]) + [b["rest"]["last"]]:
        fl = []
        for x in lines:
            name, tags = conc[x["series"]]
            fl += fmt(dict(x["p"], ts=when(x["p"]["ts"]), vals=vals(x["series"], x["p"]["vals"])), name, dict(dflt, **tags))
        flushes.append(fl)
    steps, total, nf = [], 0, 0
    for st in b["steps"]:
        if st["a"] == "add":
            s = st["s"]
            name, tags = conc[s["series"]]
            steps.append(dict(a="add", ev=dict(k="tel", name=name, kind=s["kind"], bounds=BOUNDS if s["kind"] == "hist" else None, v=vals(s["series"], s["vals"])[0],
                              more=vals(s["series"], s["vals"])[1:], ts=when(s["ts"]), persist=s["persist"], tagops=build_tags(rnd, tags))))
        else:
            steps.append(dict(a=st["a"], lines=total))
            total += len(flushes[nf]); nf += 1
    total += len(flushes[nf])
    return dict(id=cid, cfg=dict(base="now", width=b["width"], pad=b["pad"], age=b["age"], tags=[list(x) for x in dflt.items()]),
                steps=steps, total=total, expect=flushes)

def split(exp, obs):
    """The observed lines cut at the expected sizes of the flushes, each part as a sorted list."""
    res, k = [], 0
    for fl in exp:
        res.append(sorted(key(l) for l in obs[k:k + len(fl)]))
        k += len(fl)
    if k < len(obs): res.append(["surplus"] + [key(l) for l in obs[k:]])
    return res

def run(chk):
    th = chk.thorough
    every = [Tla("{}"), Tla('{"set"}'), Tla('{"set", "sum", "summ", "hist"}')]
    base = dict(Widths={1, 10}, Series={0, 1}, Kinds={"set", "sum", "summ", "hist"}, Times={-40, -25, -11, -10, 0, 1}, Persists=Tla("BOOLEAN"),
                WithMore=False, DeepLen=0, Pads=Tla("{" + ",".join(every) + "}"), Ages={0}, Breaks=False)
    pr = ["WritesAll", "Bracketed"]
    jobs = [("Wavefront", "every transition", dict(constants=dict(base, MaxEv=4 if th else 3, Pads=Tla('{{"set", "sum", "summ", "hist"}}'), Times={-25, -11, -10, 0, 1} if th else {-25, -11, -10, 1},
             Persists=Tla("BOOLEAN")), init="WInit", next="WNext", view="WView", action_constraints=["WEmit"], properties=pr, workers=1)),
            ("Wavefront", "one series, several flushes", dict(constants=dict(base, Series={0}, MaxEv=7 if th else 5, Kinds={"set"}, Widths={10}, Pads=Tla('{{"set"}}'), Persists=Tla("BOOLEAN") if th else {False},
             Times={-41, -40, -25, -9, 0, 1}), init="WInit", next="WNext", view="WView", action_constraints=["WEmit"], properties=pr, workers=1)),
            ("Wavefront", "sampled histories", dict(constants=dict(base, Widths={1, 2, 3, 10, 60}, Series={0, 1, 2, 3, 4, 5}, Pads=Tla("{" + ",".join(every + [Tla('{"summ"}'), Tla('{"hist", "sum"}')]) + "}"),
             Times=set(range(-125, 126, 11)) | {0, 1, 2, 3, 60, 100000, -100000}, Ages={0, 60}, MaxEv=40), init="WInit", next="WNextSim", properties=pr, invariants=["WEmitDeep"],
             simulate=3000 if th else 300, depth=45, seed=chk.seed, workers=1)),
            ("Wavefront", "sampled histories with broken connections", dict(constants=dict(base, Series={0, 1, 2, 3}, Times=set(range(-25, 26, 5)), MaxEv=20, Breaks=True),
             init="WInit", next="WNextSim", properties=pr, invariants=["WEmitDeep"], simulate=600 if th else 100, depth=25, seed=chk.seed, workers=1))]
    rnd = random.Random(chk.seed)
    cases = []
    lim = chk.pick(5000, 40000)
    for r in chk.models(jobs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em:
            cases.append(case(rnd, b, "w%d" % len(cases)))
    rnd.shuffle(cases)
    res = harness(chk.work, "wavefront", cases, timeout=800, env={"VH_NOW": str(NOW)})
    by = {c["id"]: c for c in cases}
    for i, r in res.items():
        if "obs" in r: r["obs"] = split(by[i]["expect"], r["obs"])
    chk.compare(cases, res, lambda c: split(c["expect"], [l for fl in c["expect"] for l in fl]))
    chk.sample(cases[0])
    chk.assumptions.append("tags and names without blanks and equal signs; the peer that breaks a connection has received all that was written before")
