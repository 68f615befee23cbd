"""C15: the Prometheus sink (Prometheus.tla)."""
import json, random, re
from vlib import *
from buckets import NOW, build_tags

BOUNDS = [2, 10, 64]
NAMES = ["m", "a.b|a-b|a_b", "x-y", "ns:sub_1", "5xx.count", "gr\u00fc\u00df", "A B", "n{x}", "le", "_"]
TAGS = [{}, {"source": "x"}, {"k1": "v1", "k2": "v2"}, {"host_name": "h", "Zone": "c"}, {"q": 'say "hi"'}, {"path": "C:\\dir\\new"}, {"multi": "two\nlines"},
        {"uni": "gr\u00fc\u00df", "_9lives": "cat"}, {"t%d" % i: "x%d" % i for i in range(9)} and {"t1": "x1", "t2": "", "t3": "a,b=c}"}]
FAMILIES = [[{}, {"a": "b"}, {"a": "c"}, {"b": "b"}, {"a": ""}, {"A": "b"}, {"a": "B"}],
            [{"a": "b", "c": "d"}, {"a": 'b", "c": "d'}, {"a": "b,c=d"}, {"a": "d", "c": "b"}, {"ab": "c"}, {"a": "bc"}],
            [{"source": "dflt"}, {"source": "x"}, {"source": "dflt", "k1": "d1"}, {"k1": "d2"}, {"source": "", "k1": "d2"}]]
DEFAULTS = [{}, {"source": "dflt"}, {"k1": "d1", "zone": "d3"}]
TYPES = dict(set="gauge", sum="counter", summ="summary", hist="histogram")
QS = [0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999]

def metric_name(n):
    n = n.split("|")[0]
    r = "".join(chr(b) if re.match(rb"[a-zA-Z0-9:_]", bytes([b])) else "_" for b in n.encode())
    return "_" + r if r[:1].isdigit() else r

LABEL = re.compile(r'\s*([a-zA-Z_][a-zA-Z0-9_]*)\s*=\s*"((?:[^"\\\n]|\\\\|\\"|\\n)*)"\s*(,|$)')
SAMPLE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$')

def label_key(own): return json.dumps(sorted(own.items()))

def parse(body):
    """The metrics of a text exposition: name -> type and samples by labels, or what is wrong with it."""
    if body and not body.endswith("\n"): return {"invalid": "no newline at the end"}
    res, cur = {}, None
    for line in body.split("\n")[:-1]:
        if line.startswith("# TYPE "):
            p = line.split(" ")
            if len(p) != 4 or not re.match(r"[a-zA-Z_:][a-zA-Z0-9_:]*$", p[2]) or p[3] not in TYPES.values(): return {"invalid": line}
            if p[2] in res: return {"invalid": "declared again", "line": line}
            cur = p[2]
            res[cur] = dict(type=p[3], series={})
            continue
        m = SAMPLE.match(line)
        if not m or cur is None: return {"invalid": line}
        name, rest, labels = m.group(1), m.group(2), []
        if rest is not None:
            k = 0
            while k < len(rest):
                l = LABEL.match(rest, k)
                if not l: return {"invalid": line}
                labels.append((l.group(1), l.group(2).replace("\\\\", "\0").replace('\\"', '"').replace("\\n", "\n").replace("\0", "\\")))
                k = l.end()
        own = dict(labels)
        if len(own) != len(labels): return {"invalid": "label twice", "line": line}
        t = res[cur]["type"]
        suffix = name[len(cur):] if name.startswith(cur) else None
        extra = own.pop("le", None) if (t, suffix) == ("histogram", "") or suffix == "_bucket" else own.pop("quantile", None) if (t, suffix) == ("summary", "") else None
        if suffix not in ("", "_sum", "_count", "_bucket") or (suffix and t in ("gauge", "counter")): return {"invalid": "not of the metric declared above", "line": line}
        try: v = float(m.group(3))
        except ValueError: return {"invalid": line}
        res[cur]["series"].setdefault(label_key(own), []).append([suffix, extra, v])
    return res

def shown(r, exp):
    """One scrape in the form the specification shows it.  exp gives the values the quantiles must come from."""
    if r.get("status") != 200: return {"status": r.get("status", r)} if exp or r.get("status") not in (500,) else {}
    if not r["type"].startswith("text/plain") or "version=0.0.4" not in r["type"]: return {"type": r["type"]}
    ms = parse(r["body"])
    if "invalid" in ms: return ms
    out = {}
    for n, m, labels, samples in [(n + " " + l, m, l, x) for n, m in ms.items() for l, x in m["series"].items()]:
        by = {}
        for suf, ex, v in samples:
            if (suf, ex) in by: return {"invalid": "sample twice", "metric": n}
            by[(suf, ex)] = v
        if m["type"] in ("gauge", "counter"):
            out[n] = [m["type"], json.loads(labels), by.get(("", None)) if len(by) == 1 else by]
        elif m["type"] == "histogram":
            bk = [[ex, v] for s, ex, v in samples if ex is not None]
            out[n] = ["histogram", json.loads(labels), bk, by.get(("_sum", None)), by.get(("_count", None))]
        else:
            q = {float(ex): v for s, ex, v in samples if ex is not None}
            vs = sorted(exp[n][5]) if n in exp and len(exp[n]) > 5 else []
            why = "ok"
            if sorted(q) != sorted(QS): why = "quantiles %s" % sorted(q)
            elif not vs: why = "unexpected"
            else:
                for k, x in q.items():
                    near = [i for i, y in enumerate(vs) if y == x]
                    if not near or all(abs(i - k * (len(vs) - 1)) > 1.01 for i in near): why = "quantile %s is %s of %s" % (k, x, vs)
                if q[0.0] != vs[0] or q[1.0] != vs[-1]: why = "extremes %s, %s of %s" % (q[0.0], q[1.0], vs)
            out[n] = ["summary", json.loads(labels), why, by.get(("_sum", None)), by.get(("_count", None))]
    return out

def expected(show, conc, dflt):
    out = {}
    for x in show:
        l = label_key(dict(dflt, **conc[x["name"]][1][x["grp"]]))
        name, labels = metric_name(conc[x["name"]][0]) + " " + l, json.loads(l)
        k = x["kind"]
        if k in ("set", "sum"): out[name] = [TYPES[k], labels, float(x["sum"])]
        elif k == "hist":
            bk = [[str(b), float(sum(1 for v in x["vals"] if v <= b))] for b in BOUNDS] + [["+Inf", float(len(x["vals"]))]]
            out[name] = ["histogram", labels, bk, float(x["sum"]), float(x["count"])]
        else: out[name] = ["summary", labels, "ok", float(x["sum"]), float(x["count"]), x["vals"]]
    return out

def plain(e): return {n: v[:5] for n, v in e.items()}

def steps_of(rnd, b, conc, dflt):
    steps, scrapes = [], []
    which = rnd.randrange(4)
    for st in b["steps"]:
        s = st["s"]
        if st["a"] == "add":
            name, tags = conc[s["name"]][0], conc[s["name"]][1][s["grp"]]
            # what the sink adds itself may come with the point as well
            tags = dict({k: v for k, v in dflt.items() if k not in tags and rnd.random() < .3}, **{k: v for k, v in tags.items() if dflt.get(k) != v or rnd.random() < .5})
            steps.append(dict(a="add", ev=dict(k="tel", name=rnd.choice(name.split("|")), kind=s["kind"], bounds=BOUNDS if s["kind"] == "hist" else None, v=s["vals"][0], more=s["vals"][1:],
                              ts=far(which, s["ts"]), persist=rnd.random() < 0.3, tagops=build_tags(rnd, tags))))
        elif st["a"] == "scrape":
            scrapes.append(expected(s["show"], conc, dflt))
            steps.append(dict(a="scrape"))
        elif st["a"] == "tick": steps.append(dict(a="tick", now=s["now"]))
        else: steps.append(dict(a="flush"))
    return steps, scrapes

FAR = [(-2**63, 2**63 - 1), (-2**63 + 1, 2**62), (-2**62, 2**63 - 2), (-2**63 + NOW, 2**63 - 1)]

def far(which, t):
    """Times beyond 50000 stand for extreme ones."""
    if abs(t) < 50000: return t
    return {"abs": str(FAR[which][t > 0])}

def groups(rnd, dflt):
    """Sets of tags that a sink with these tags of its own reports differently."""
    ts = list({label_key(dict(dflt, **t)): t for t in (rnd.choice(FAMILIES) if rnd.random() < .5 else TAGS)}.values())
    return rnd.sample(ts, 3)

def case(rnd, b, cid, stop=False, names=NAMES):
    dflt = rnd.choice(DEFAULTS)
    conc = {i: (n, groups(rnd, dflt)) for i, n in enumerate(rnd.sample(names, 6))}
    steps, scrapes = steps_of(rnd, b, conc, dflt)
    if "last" in b:
        steps.append(dict(a="scrape"))
        scrapes.append(expected(b["last"], conc, dflt))
    return dict(id=cid, cfg=dict(base="now", cap=b["cap"], age=b["age"], tags=[list(x) for x in dflt.items()], gzip=rnd.random() < 0.3), steps=steps, stop=stop,
                expect=scrapes)

def run(chk):
    th = chk.thorough
    base = dict(Names={0, 1}, Groups={0}, Kinds={"set", "sum", "summ", "hist"}, Times={-11, -10, 0, 1, 12}, Caps={1, 10}, Ages={0}, Ticks=Tla("{}"), Signs={1}, WithMore=False)
    inv = ["TrueAggregate", "WindowBounded", "OneKind"]
    pr = ["ScrapeKeeps", "TotalsKept", "PurgedExact"]
    far_times = Tla("{0 - 100000, 0 - 61, 0 - 60, 0 - 30, 0 - 2, 0 - 1, 0, 1, 2, 30, 60, 61, 100000}")
    jobs = [("Prometheus", "every transition, one name", dict(constants=dict(base, Names={0}, MaxEv=4 if th else 3, Signs={1, -1}, WithMore=True, Times={-11, -10, 1}), view="PView",
             action_constraints=["Emit"], invariants=inv, properties=pr, workers=1)),
            ("Prometheus", "every transition, one name with three sets of tags", dict(constants=dict(base, Names={0}, Groups={0, 1, 2}, MaxEv=4 if th else 3, Times={-11, 1}, Caps={1, 10} if th else {10}), view="PView",
             action_constraints=["Emit"], invariants=inv, properties=pr, workers=1)),
            ("Prometheus", "every transition, a summary", dict(constants=dict(base, Names={0}, Kinds={"summ"}, MaxEv=5 if th else 4, Caps={1, 2, 10}), view="PView",
             action_constraints=["Emit"], invariants=inv, properties=pr, workers=1)),
            ("Prometheus", "sampled histories", dict(constants=dict(base, Names=set(range(6)), Groups={0, 1, 2}, Times=far_times, Caps={1, 2, 3, 60}, Ages={0, 60}, Signs={1, -1}, MaxEv=60),
             next="NextSim", invariants=["EmitDeep"] + inv, properties=pr, simulate=1500 if th else 200, depth=65, seed=chk.seed, workers=1)),
            ("Prometheus", "sampled histories under a moving clock", dict(constants=dict(base, Names=set(range(6)), Groups={0, 1, 2}, Times={-40, -20, -10, -5, 0, 5}, Caps={5, 20, 40}, Ages={0, 30},
             MaxEv=60), next="NextClock", invariants=["EmitDeep"] + inv, properties=pr, simulate=200 if th else 40, depth=65, seed=chk.seed, workers=1)),
            ("Prometheus", "runs scraped meanwhile", dict(constants=dict(base, Names=set(range(6)), Groups={0, 1, 2}, Caps={3}, Times={-20, -5, -3, -1, 0, 1, 2, 3}, MaxEv=250),
             next="NextRun", invariants=["EmitRun"] + inv, simulate=30 if th else 6, depth=255, seed=chk.seed, workers=1))]
    rs = chk.models(jobs)
    rnd = random.Random(chk.seed)
    cases = []
    lim = chk.pick(1500, 8000)
    for r in rs[:4]:
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em: cases.append(case(rnd, b, "p%d" % len(cases)))
    rnd.shuffle(cases)
    for c in cases: c["stop"] = True
    res = harness(chk.work, "prom", cases, workers=32, timeout=800, env={"VH_NOW": str(NOW)})
    def obs(c):
        r = res[c["id"]]
        if "obs" in r:
            r["obs"]["scrapes"] = [shown(x, e) for x, e in zip(r["obs"]["scrapes"], c["expect"])]
    for c in cases: obs(c)
    chk.compare(cases, res, lambda c: dict(scrapes=[plain(e) for e in c["expect"]], stop=dict(ended=True) if c["stop"] else None))
    chk.sample(cases[0])
    # tag keys that are no label names
    odd = [dict(id="key " + k, cfg=dict(base="now", cap=10, age=0, tags=[], gzip=False), stop=False, key="label-name:" + k,
                steps=[dict(a="add", ev=dict(k="tel", name="m", kind="set", v=1, more=[], ts=0, persist=False, tagops=build_tags(rnd, {k: "v"}))), dict(a="scrape")])
           for k in ("host-name", "a.b", "9lives", "sp ace", "")]
    res = harness(chk.work, "prom", odd, workers=1, timeout=60, env={"VH_NOW": str(NOW)})
    for c in odd:
        r = res[c["id"]]
        if "obs" in r: r["obs"] = "invalid" if "invalid" in shown(r["obs"]["scrapes"][0], {"m": []}) else "valid"
    chk.compare(odd, res, lambda c: "valid", key=lambda c, e, o: c["key"] if o == "invalid" else None)
    # the same under a moving clock
    subs = [case(rnd, b, "c%d" % i) for i, b in enumerate(rs[4].emitted)]
    subs = [c for c in subs if len(c["steps"]) == len(subs[0]["steps"])]
    big = dict(id="clock", cfg=dict(base="now"), subs=subs)
    r = harness(chk.work, "promclock", [big], workers=1, timeout=800, case_timeout=700, env={"VH_NOW": str(NOW)})["clock"]
    if "obs" not in r: chk.compare([big], {"clock": r}, lambda c: "all scrapes answered")
    else:
        rr = {c["id"]: dict(obs=[shown(x, e) for x, e in zip(o, c["expect"])]) for c, o in zip(subs, r["obs"])}
        chk.compare(subs, rr, lambda c: [plain(e) for e in c["expect"]])
    # scrapes while events are delivered: each shows a state the run passes through, in order
    runs, cur = [], None
    for x in rs[5].emitted:
        if x["n"] == 0: continue
        if x["n"] == 1: cur = dict(cap=x["cap"], age=0, steps=[], shows=[[]]); runs.append(cur)
        cur["steps"].append(x["step"]); cur["shows"].append(x["show"])
    cc = []
    for k, b in enumerate(runs):
        conc = {i: (n, [{}, {"k": "v"}, {"k": "w"}]) for i, n in enumerate(NAMES[:6])}
        c = dict(id="r%d" % k, cfg=dict(base="now", cap=b["cap"], age=0, tags=[], gzip=False), steps=steps_of(rnd, b, conc, {})[0],
                 states=[expected(sh, conc, {}) for sh in b["shows"]])
        cc.append(c)
    res = harness(chk.work, "promrun", cc, workers=4, timeout=300, env={"VH_NOW": str(NOW)})
    nscr = 0
    for c in cc:
        r = res[c["id"]]
        if "obs" not in r: chk.compare([c], res, lambda c: "all scrapes answered"); continue
        at = 0
        for x in r["obs"]:
            if x.get("status") == 500: continue       # the sink was busy: no answer, which a scraper retries
            nscr += 1
            k = at
            while k < len(c["states"]) and shown(x, c["states"][k]) != plain(c["states"][k]): k += 1
            if k == len(c["states"]):
                chk.violation("a scrape during delivery shows a state the sink never was in after the ones shown before",
                              {"run": c["id"], "observed": x, "closest": min((sum(shown(x, st).get(n) != plain(st).get(n) for n in set(st) | set(shown(x, st))), k) for k, st in enumerate(c["states"]))}); break
            at = k
        x = r["obs"][-1]
        if shown(x, c["states"][-1]) != plain(c["states"][-1]): chk.violation("the last scrape does not show everything delivered", {"observed": shown(x, c["states"][-1]), "expected": plain(c["states"][-1])})
        chk.cov["traces_validated_against_impl"] += 1
    chk.cov["concurrent_scrapes"] = nscr
