"""C30: the console sink (Console.tla)."""
import random, re
from vlib import *
from buckets import NOW, SERIES, build_tags
import wire

BOUNDS = [2, 10, 64]
QS = [("min", 0.0), ("max", 1.0), ("50", .5), ("90", .9), ("99", .99), ("999", .999)]
TEXTS = ["hello", "", "a b  c", "x=1 y=2", "sums: none", "grün ключ", "p: q: r", "\ttab", "v" * 3000, "0(1): 2", "  sums"]
PATHS = ["/var/log/a", "p", "", "a b", "q: r", "/tmp/ü"]
SECTIONS = ["sums", "sets", "summaries", "histograms"]

def text(x):
    return "%d" % x if x == int(x) else repr(x)

def printed(p, name, ts):
    """What is shown of one point: [section, what precedes the number, values it may be]."""
    v, k = p["vals"], p["kind"]
    if k in ("set", "sum"): return [[k + "s", "    %s(%d): " % (name, ts), v]]
    if k == "summ":
        vs = sorted(v)
        return [["summaries", "    %s: %s " % (name, n), [vs[0]] if q == 0 else [vs[-1]] if q == 1 else sorted({vs[i] for i in range(len(vs)) if abs(i - q * (len(vs) - 1)) <= 1.01})] for n, q in QS]
    res = []
    for i, b in enumerate(BOUNDS + ["pos_inf"]):
        lo = BOUNDS[i - 1] if i else None
        res.append(["histograms", "    %s_%s(%d): " % (name, b, ts), [sum(1 for x in v if (lo is None or x > lo) and (b == "pos_inf" or x <= b))]])
    return res

def case(rnd, b, cid):
    conc = rnd.sample(range(len(SERIES)), 6)
    dflt = rnd.choice([{}, {"k1": "d1"}, {"source": "dflt", "zone": "d3"}])
    kinds = {}
    for st in b["steps"]:
        if st["a"] == "add": kinds.setdefault(st["s"]["series"], set()).add(st["s"]["kind"])
    odd = {s: rnd.choice(["nan", "inf", "-inf"]) for s, k in kinds.items() if k <= {"set", "sum"} and rnd.random() < .1}
    scale = 1 if any("hist" in k for k in kinds.values()) else rnd.choice([1, -1, .125, -.5, 10**9])
    def vals(s, v): return [odd[s]] * len(v) if s in odd else [x * scale for x in v]
    steps, said = [], {}
    for st in b["steps"]:
        if st["a"] == "line":
            t, p, v = rnd.choice([1500000000, 0, -1, NOW, 253402300799, -2**63, 2**63 - 1]), rnd.choice(PATHS), rnd.choice(TEXTS)
            own = rnd.choice([{}, {"k1": "v1"}, {"source": "me", "b": "2"}])
            said[st["s"]["n"]] = ["%s.000Z %s: %s" % (wire.iso_date(t), p, v), sorted("%s=%s" % x for x in dict(dflt, **own).items())]
            steps.append(dict(a="line", ev=dict(k="log", path=p, value=v, ts=dict(abs=str(t)), tags=[list(x) for x in own.items()] or rnd.choice([None, []]))))
        elif st["a"] == "add":
            s = st["s"]
            name, tags = SERIES[conc[s["series"]]]
            vs = vals(s["series"], s["vals"])
            steps.append(dict(a="add", ev=dict(k="tel", name=name, kind=s["kind"], bounds=BOUNDS if s["kind"] == "hist" else None, v=vs[0], more=vs[1:], ts=s["ts"], persist=s["persist"],
                                               tagops=build_tags(rnd, tags))))
        else: steps.append(dict(a="flush"))
    exp = []
    for fl in b["out"]:
        pts = [x for sr in fl["pts"] for p in sr["pts"] for x in printed(dict(p, vals=vals(sr["series"], p["vals"])), SERIES[conc[sr["series"]]][0], NOW + p["ts"])]
        exp.append(dict(lines=[said[n] for n in fl["lines"]], points=pts))
    return dict(id=cid, cfg=dict(base="now", width=b["width"], tags=[list(x) for x in dflt.items()]), steps=steps, expect=exp)

def value(s):
    try: return {"NaN": "nan", "inf": "inf", "-inf": "-inf"}.get(s) or float(s)
    except ValueError: return None

def fits(sets, vals):
    """Can each value be paired with a set it is in, none left over?"""
    if len(sets) != len(vals): return False
    mate = {}
    def put(i, tried):
        for j, v in enumerate(vals):
            if v in sets[i] and j not in tried:
                tried.add(j)
                if j not in mate or put(mate[j], tried):
                    mate[j] = i
                    return True
        return False
    return all(put(i, set()) for i in range(len(sets)))

def judge(exp, got):
    """None if this is what the flush should have printed."""
    rows = got.split("\n")
    if rows.pop() != "": return "the last line is not ended"
    if not rows or not re.match(r"Flushing lines: \S+$", rows.pop(0)): return "no heading"
    for head, tags in exp["lines"]:
        if not rows: return "line missing: %r" % head
        r = rows.pop(0)
        if not r.startswith(head) or sorted(r[len(head):].split(" ")[1:] if r[len(head):] else []) != tags: return "%r instead of line %r %s" % (r, head, tags)
    if not rows or not re.match(r"Flushing metrics: \S+$", rows.pop(0)): return "lines beyond those that are due"
    left = {}
    for sec, head, vs in exp["points"]: left.setdefault((sec, head), []).append([v if isinstance(v, str) else float(v) for v in vs])
    seen = {}
    for sec in SECTIONS:
        if not rows or rows.pop(0) != "  %s:" % sec: return "no section %s" % sec
        while rows and rows[0].startswith("    "):
            r = rows.pop(0)
            head = next((h for k, h in left if k == sec and r.startswith(h) and value(r[len(h):]) is not None), None)
            if head is None: return "%r in section %s" % (r, sec)
            seen.setdefault((sec, head), []).append(value(r[len(head):]))
    for x in left:
        if not fits(left[x], seen.get(x, [])): return "%s: shown %s, to be shown are %s" % (x, seen.get(x, []), left[x])
    if rows: return "surplus: %r" % rows
    return None

def run(chk):
    th = chk.thorough
    base = dict(Widths={1, 10}, Series={0, 1}, Kinds={"set", "sum", "summ", "hist"}, Times={-20, -15, 0, 5}, Persists=Tla("BOOLEAN"), WithMore=False, DeepLen=0)
    inv, pr = ["LinesOnce"], ["PrintsAll"]
    jobs = [("Console", "every transition", dict(constants=dict(base, MaxEv=3, Series={0, 1} if th else {0}), init="CInit", next="CNext", view="CView", action_constraints=["CEmit"], invariants=inv, properties=pr, workers=1)),
            ("Console", "one series, deeper", dict(constants=dict(base, Series={0}, Kinds={"set", "summ"}, Times={-15, 5}, Widths={10}, MaxEv=6 if th else 5), init="CInit", next="CNext", view="CView", action_constraints=["CEmit"],
             invariants=inv, properties=pr, workers=1)),
            ("Console", "sampled histories", dict(constants=dict(base, Widths={1, 2, 3, 10, 60}, Series={0, 1, 2, 3, 4, 5}, Times=set(range(-25, 26, 3)) | {60, 100000}, MaxEv=40, WithMore=True), init="CInit", next="CNextSim",
             invariants=["CEmitDeep"] + inv, properties=pr, simulate=3000 if th else 400, depth=45, seed=chk.seed, workers=1))]
    rnd = random.Random(chk.seed)
    cases = []
    lim = chk.pick(4000, 40000)
    for r in chk.models(jobs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em: cases.append(case(rnd, b, "o%d" % len(cases)))
    rnd.shuffle(cases)
    res = harness(chk.work, "console", cases, timeout=800, env={"VH_NOW": str(NOW)})
    by = {c["id"]: c for c in cases}
    for i, r in res.items():
        if "obs" in r:
            e, o = by[i]["expect"], r["obs"]["out"]
            bad = [w for w in map(judge, e, o) if w]
            r["obs"] = dict(flushes=len(o), open=r["obs"]["open"], bad=bad)
    chk.compare(cases, res, lambda c: dict(flushes=len(c["expect"]), open=True, bad=[]))
    chk.sample(cases[0])
    chk.assumptions.append("no line breaks in names, paths and values; standard output takes what is written to it")
