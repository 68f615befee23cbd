"""C12, C13: the aggregation store (Buckets.tla)."""
import random
from vlib import *

NOW = 1600000020          # a multiple of every bin width used
BOUNDS = {"hist": [1, 10, 100, 1000], "histb": [2, 10, 64]}
SERIES = [("m", {}), ("m", {"a": "bc"}), ("m", {"ab": "c"}), ("m", {"k1": "v1", "k2": "v2"}), ("m", {"k1": "v2", "k2": "v1"}),
          ("m", {"t%d" % i: "x%d" % (i * 7) for i in range(11)}), ("m", {"t%d" % i: "x%d" % (i * 7) for i in range(10)}),
          ("n", {"k1": "v1", "k2": "v2"}), ("n", {}), ("ma", {"": "bc"}), ("m", {"a": ""}), ("m", {"source": "x"})]

def build_tags(rnd, tags, ops=None):
    """Operations that end in exactly these tags, in varied ways."""
    items = list(tags.items())
    rnd.shuffle(items)
    if not items and rnd.random() < 0.5:
        return []
    junk = [("z%d" % rnd.randint(0, 40), "junk") for _ in range(rnd.choice((0, 0, 1, 3, 20)))]
    junk = [j for j in dict(junk).items() if j[0] not in tags]
    ops = []
    if rnd.random() < 0.4:
        k = rnd.randint(0, len(items))
        ops.append(["new", [list(x) for x in items[:k] + junk]])
        rest = items[k:]
    else:
        ops += [["ins", k, v] for k, v in junk]
        rest = items
    if rest and rnd.random() < 0.3:
        ops.append(["map", [list(x) for x in rest]])
    else:
        for k, v in rest:
            if rnd.random() < 0.2: ops.append(["ins", k, "other"])
            ops.append([rnd.choice(("ins", "over")), k, v])
    dels = [["del", k] for k, _ in junk] + ([["del", "absent"]] if rnd.random() < 0.1 else [])
    rnd.shuffle(dels)
    return ops + dels

def point(p):
    v = p["vals"]
    if p["kind"] in ("set", "sum"):
        vals = v
    else:
        tail = "count %d sum %d" % (len(v), sum(v))
        if p["kind"] == "summ":
            vals = sorted(v) + [tail]
        else:
            bs, bins = BOUNDS[p["kind"]], []
            for i, b in enumerate(bs + ["inf"]):
                lo = bs[i - 1] if i else None
                bins.append([b, sum(1 for x in v if (lo is None or x > lo) and (b == "inf" or x <= b))])
            vals = [bins, tail]
    return dict(ts=p["ts"], kind="hist" if p["kind"] == "histb" else p["kind"], vals=vals, persist=p["persist"])

def case(rnd, b, cid):
    # which concrete series each abstract one is: all distinct
    conc = rnd.sample(range(len(SERIES)), 6)
    steps = []
    for st in b["steps"]:
        if st["a"] == "reset":
            steps.append(dict(a="reset"))
            continue
        s = st["s"]
        name, tags = SERIES[conc[s["series"]]]
        steps.append(dict(a="add", ev=dict(k="tel", name=name, kind="hist" if s["kind"] == "histb" else s["kind"], bounds=BOUNDS.get(s["kind"]), v=s["vals"][0], more=s["vals"][1:], ts=s["ts"],
                                           persist=s["persist"], tagops=build_tags(rnd, tags))))
    pts = {}
    for x in b["points"]:
        name, tags = SERIES[conc[x["series"]]]
        pts["%s %s" % (name, json.dumps(dict(sorted(tags.items())), separators=(",", ":")))] = [point(p) for p in x["pts"]]
    n = b["count"]
    cfg = dict(width=b["width"], base="now")
    if b["width"] == 1 and rnd.random() < 0.3: cfg["default"] = True
    return dict(id=cid, cfg=cfg, steps=steps, expect=dict(points=pts, count=n, len=b["len"], empty=n == 0))

def run(chk):
    th = chk.thorough
    persists = [False, True]
    base = dict(Widths={1, 10}, Series={1, 2}, Kinds={"set", "sum", "summ", "hist", "histb"}, Times={-20, -15, 0, 5}, Persists=Tla("BOOLEAN"),
                WithMore=False, DeepLen=0)
    c13 = chk.prop == "C13"
    inv = ["OnePerBin", "ExactFold", "NothingLost"]
    pr = ["Starts", "Continues"]
    # everything up to two operations; one series deeper
    jobs = [("Buckets", "every transition", dict(constants=dict(base, MaxEv=2, Kinds={"set", "sum", "summ", "hist", "histb"}, WithMore=True), invariants=inv, properties=pr,
             action_constraints=["Emit"], view="View", workers=1)),
            ("Buckets", "one series, every transition", dict(constants=dict(base, Series={1}, MaxEv=4 if th else 3, Kinds={"set", "sum", "hist", "summ"} if th or not c13 else {"set", "sum"},
             Times={-20, -15, 5} if not c13 else {-20, -15, 0, 5}), invariants=inv, properties=pr, action_constraints=["Emit"], view="View", workers=1)),
            ("Buckets", "sampled histories", dict(constants=dict(base, Widths={1, 2, 3, 10, 60}, Series={0, 1, 2, 3, 4, 5}, Times=set(range(-25, 26, 3)) | {59, 60, 100000},
             MaxEv=40, DeepLen=40, WithMore=True), next="NextSim", invariants=["EmitDeep", "OnePerBin", "NothingLost"], simulate=4000 if th else 500, depth=45, seed=chk.seed, workers=1))]
    jobs.append(("Buckets", "sampled histories, one or two series", dict(constants=dict(base, Widths={1, 10}, Series={0, 1}, Kinds={"set", "sum"} if c13 else base["Kinds"], Times={-21, -20, -11, -1, 0, 1, 9, 10, 11},
             MaxEv=12, DeepLen=12, WithMore=True), next="NextSim", invariants=["EmitDeep", "OnePerBin", "NothingLost"], simulate=8000 if th else 1500, depth=45, seed=chk.seed + 1, workers=1)))
    rnd = random.Random(chk.seed)
    cases = []
    lim = chk.pick(6000, 60000)
    for r in chk.models(jobs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em:
            cases.append(case(rnd, b, "b%d" % len(cases)))
    rnd.shuffle(cases)
    res = harness(chk.work, "buckets", cases, timeout=600, env={"VH_NOW": str(NOW)})
    chk.compare(cases, res, lambda c: c["expect"])
    chk.sample(cases[0])
    chk.assumptions.append("the quantile summaries keep every sample exactly at the sizes used (fewer than 500)")
