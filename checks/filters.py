"""C08 flush boundary, C09 delay, C10 programmable, C11 JSON encode."""
import json, random
from vlib import *
import wire

def run(chk):
    {"C08": flush_boundary, "C09": delay, "C10": programmable, "C11": json_encode}[chk.prop](chk)

# ---------------------------------------------------------------- C08
TIMES = [-9223372036854775808, -7, -1, 0, 1, 59, 1500000000, 9223372036854775807]

def flush_boundary(chk):
    th = chk.thorough
    inv = ["ExactlyOnce", "NothingKept", "Increasing", "AgeBound", "NotEarly"]
    c = dict(Tols={0, 1, 2, 3}, Times={1, 2, 3}, MaxEv=4 if not th else 5, MaxPulse=4 if not th else 5, DeepLen=0)
    jobs = [("FlushBoundary", "every transition", dict(constants=c, view="View", action_constraints=["Emit"], workers=1)),
            ("FlushBoundary", "exhaustive", dict(constants=dict(c, MaxEv=3, MaxPulse=3), invariants=inv, workers=4)),
            ("FlushBoundary", "sampled histories", dict(constants=dict(c, Tols={0, 1, 5, 12}, Times=set(range(1, 9)), MaxEv=60, MaxPulse=60, DeepLen=70),
             invariants=["EmitDeep", "ExactlyOnce", "Increasing", "AgeBound"], simulate=1500 if th else 150, depth=75, seed=chk.seed, workers=1))]
    rs = chk.models(jobs)
    rnd = random.Random(chk.seed)
    cases = []
    for r in (rs[0], rs[2]):
        for b in r.emitted:
            n = 8 if r is rs[2] else 3
            times = sorted(rnd.sample(TIMES, n))
            steps = []
            for s in b["steps"]:
                if s["a"] == "end": continue
                if s["a"] == "timed":
                    k = rnd.random() < 0.5
                    t = {"abs": str(times[s["ts"] - 1])}
                    ev = dict(k="tel", name=s["id"], v=1, ts=t) if k else dict(k="log", value=s["id"], path="p", ts=t)
                elif s["a"] == "untimed":
                    ev = dict(k="raw", bytes=s["id"])
                else:
                    ev = dict(k="flush", i=s["ts"])
                steps.append(dict(t="event", ev=ev))
            more = [dict(t="event", ev=dict(k="flush", i=i)) for i in range(b["from"] + 1, b["upto"] + 1)]
            # what is held shows in the order it comes out with further pulses, or at once with the end
            for st, out in ((steps + more, b["more"]), (steps, b["out"])):
                if r is rs[0] and rnd.random() < (0.3 if more and st is steps else 0): continue
                # of several upstreams, the stream ends with the last to end
                nu = rnd.choice((1, 1, 2, 3))
                st = list(st)
                for _ in range(nu - 1): st.insert(rnd.randint(0, len(st)), dict(t="end"))
                cases.append(dict(id="f%d" % len(cases), cfg=dict(filter="flush_boundary", names=True, tolerance=b["tol"], nu=nu, nf=1),
                                  steps=st + [dict(t="end")], expect=out, deep=r is rs[2]))
                if not more: break
    rnd.shuffle(cases)
    cases = sorted(cases, key=lambda c: not c.pop("deep"))[:chk.pick(9000, 60000)]
    res = harness(chk.work, "filterrun", cases, timeout=900)
    chk.compare(cases, res, lambda c: {"out": [c["expect"]]})
    chk.sample(cases[0])

# ---------------------------------------------------------------- C09
def delay(chk):
    th = chk.thorough
    c = dict(Tols={0 - 1, 0, 1, 2, 60, 1000000}, Dists={0 - 2000000000, 0 - 61, 0 - 59, 0 - 2, 0 - 1, 0, 1, 2, 59, 61, 999999, 2000000000}, MaxEv=2)
    inv = ["Exact", "InOrder", "Counted"]
    jobs = [("Delay", "every history", dict(constants=c, invariants=inv + ["EmitAll"], workers=1)),
            ("Delay", "sampled histories", dict(constants=dict(c, MaxEv=12), invariants=inv + ["EmitAll"], next="NextSim", simulate=1500 if th else 200, depth=20, seed=chk.seed, workers=1))]
    rnd = random.Random(chk.seed)
    far = {-1: ["-9223372036854775808", "-9223372036854775807", "MINNOW", "MINNOW1", "-1", "-4611686018427387904"],
           1: ["9223372036854775807", "9223372036854775806", "4611686018427387904", "9000000000000000000"]}
    cases = []
    for r in chk.models(jobs):
        for b in r.emitted:
            steps, counts = [], b["counts"]
            for s in b["steps"]:
                if abs(s["d"]) == 2000000000:
                    ts = {"abs": rnd.choice(far[1 if s["d"] > 0 else -1])}
                else:
                    ts = s["d"]
                if s["kind"] == "tel": ev = dict(k="tel", name=s["id"], v=1, ts=ts, kind=rnd.choice(("set", "sum", "summ")), persist=rnd.random() < 0.5)
                elif s["kind"] == "log": ev = dict(k="log", value=s["id"], path="p", ts=ts)
                elif s["kind"] == "raw": ev = dict(k="raw", bytes=s["id"])
                else: ev = dict(k="flush", i=int(s["id"][1:]))
                steps.append(dict(t="event", ev=ev))
            want = [x for x in b["out"]]
            cases.append(dict(id="d%d" % len(cases), cfg=dict(filter="delay", base="now", names=True, count=True, tolerance=b["tol"]),
                              steps=steps, expect=want, counts=[counts["ta"], counts["tr"], counts["la"], counts["lr"]]))
    rnd.shuffle(cases)
    cases = cases[:chk.pick(6000, 30000)]
    # the counters are global to the process: one worker
    res = harness(chk.work, "filter", cases, workers=1, timeout=600)
    def observe(r):
        flat = []
        for o in r["obs"]:
            flat += o["out"]
            if "failed" in o: flat.append("failed")
        return dict(out=[x.replace("pulse", "e") for x in flat], counts=r["counts"])
    chk.compare(cases, res, lambda c: dict(out=c["expect"], counts=c["counts"]), observe=observe)
    chk.sample(cases[0])
    # unchanged content: the whole event in, the whole event out
    whole = [dict(id="w%d" % i, cfg=dict(filter="delay", base="now", tolerance=100), steps=[dict(t="event", ev=e)], ev=e)
             for i, e in enumerate(events(rnd, chk.pick(200, 2000)))]
    res = harness(chk.work, "filter", whole, timeout=300)
    same = harness(chk.work, "events", [dict(id=c["id"], cfg=c["cfg"], events=[c["ev"]]) for c in whole], timeout=300)
    chk.compare(whole, res, lambda c: [dict(out=same[c["id"]]["obs"])])
    chk.assumptions.append("the clock stands still during a case; at exactly the tolerance either outcome is allowed")

def events(rnd, n):
    """Events of every shape, with times near the present."""
    out = []
    for i in range(n):
        tags = {rnd.choice("abcdeé"): rnd.choice(("x", "y", "")) for _ in range(rnd.randint(0, 4))}
        k = rnd.choice(("tel", "tel", "log", "raw", "flush"))
        if k == "tel":
            e = dict(k="tel", name="n%d" % i, v=rnd.choice((0, -1.5, 3, 1e300)), ts=rnd.randint(-50, 50), kind=rnd.choice(("set", "sum", "summ", "hist")),
                     persist=rnd.random() < 0.5, tags=tags, bounds=[1.0, 10.0, 100.0], more=[1.0, 5.0] if rnd.random() < 0.5 else [])
        elif k == "log":
            e = dict(k="log", path="p%d" % i, value="v%d \u00e9" % i, ts=rnd.randint(-50, 50), fields={"f": "1"} if rnd.random() < 0.5 else {}, tags=tags)
        elif k == "raw":
            e = dict(k="raw", bytes="b%d" % i, order=rnd.randint(0, 2**40), enc=rnd.choice(("avro", "json", "raw")),
                     meta=rnd.choice((None, [], [["a", "b"]], [["a", "b"], ["c", "d"]])))
        else:
            e = dict(k="flush", i=rnd.randint(0, 2**40))
        out.append(e)
    return out

# ---------------------------------------------------------------- C11
def json_encode(chk):
    th = chk.thorough
    keys = {"message", "time", "path", "tags", "a"}
    sets = [frozenset(), frozenset(["a"]), frozenset(["message"]), frozenset(["time", "a"]), frozenset(["path", "tags"])]
    tags = [frozenset(), frozenset(["a"]), frozenset(["a", "b"])]
    full = Tla("{%s, [kind |-> \"text\", keys |-> {}], [kind |-> \"array\", keys |-> {}], [kind |-> \"num\", keys |-> {}], [kind |-> \"bad\", keys |-> {}]}" %
               ", ".join('[kind |-> "obj", keys |-> %s]' % tla(s) for s in sets + [frozenset(["message", "path", "a"])]))
    c = dict(Keys=keys, FieldSets=Tla("{" + ", ".join(tla(s) for s in sets) + "}"), TagSets=Tla("{" + ", ".join(tla(s) for s in tags) + "}"),
             DefSets=Tla("{{}, {\"a\"}, {\"a\", \"c\"}}"), Bodies=full, MaxEv=1)
    inv = ["OneEach", "NoKeyLost", "Precedence", "EmitAll"]
    jobs = [("JsonEncode", "every line", dict(constants=c, invariants=inv, workers=1)),
            ("JsonEncode", "sampled sequences", dict(constants=dict(c, MaxEv=8), invariants=inv, next="NextSim", simulate=3000 if th else 300, depth=12, seed=chk.seed, workers=1))]
    rnd = random.Random(chk.seed)
    cases = []
    for r in chk.models(jobs):
        for b in r.emitted:
            cases.append(json_case(rnd, b, len(cases)))
    res = harness(chk.work, "filter", cases, timeout=600)
    def observe(r):
        out = []
        for o in r["obs"]:
            if "failed" in o or len(o["out"]) != 1:
                out.append(o)
                continue
            e = o["out"][0]
            if e["k"] == "raw" and e["enc"] == "json":
                out.append(dict(doc=strict_json(e["bytes"]), meta=e["meta"]))
            else:
                out.append(e)
        return out
    same = harness(chk.work, "events", [dict(id=c["id"], cfg=c["cfg"], events=[s["ev"] for s in c["steps"]]) for c in cases], timeout=300)
    def expect(c):
        return [w if w is not None else same[c["id"]]["obs"][k] for k, w in enumerate(c["expect"])]
    chk.compare(cases, res, expect, observe=observe)
    chk.sample(cases[0])

def strict_json(text):
    def pairs(ps):
        d = {}
        for k, v in ps:
            if k in d: raise ValueError("duplicate key")
            d[k] = v
        return d
    try:
        return json.loads(text, object_pairs_hook=pairs)
    except ValueError as e:
        return {"not a document": text, "error": str(e)}

def rfc3339(ts):
    return wire.iso_date(ts) + "+00:00"

DOCVALS = ["str", 5, -2.5, True, None, [1, {"x": []}], {"deep": {"er": "é"}}, ""]
def json_case(rnd, b, n):
    cfg = dict(filter="json", parse=b["cfg"]["parse"], tags={k: "default." + k for k in b["cfg"]["defs"]})
    steps, expect = [], []
    for s, o in zip(b["steps"], b["out"]):
        if s["kind"] == "log":
            ts = rnd.choice((0, 1, 1500000000, 946684800, 4102444800, 59, -1, -62135596800, -62167219201, 253402300799, 253402300800, 8210298412799, 8210298412800, -8334632851201, 2**63 - 1, -2**63))
            path = rnd.choice(("/var/log/a", "p", "é\"\\"))
            body = s["body"]
            vals = {"doc." + k: rnd.choice(DOCVALS) for k in body.get("keys", [])}
            ks = list(body.get("keys", []))
            rnd.shuffle(ks)
            text = {"obj": json.dumps({k: vals["doc." + k] for k in ks}, ensure_ascii=rnd.random() < 0.5), "text": rnd.choice(("plain text", "", "é \t\"q\"")),
                    "bad": rnd.choice(('{"a": 1', '{a: 1}', '{"a":1} trailing', "{'a': 1}")), "array": '[{"a": 1}]', "num": rnd.choice(("12", '"str"', "null", "true"))}[body["kind"]]
            if body["kind"] == "obj" and rnd.random() < 0.3: text = "  " + text + " \n"
            fields = {k: "field." + k for k in s["fields"]}
            tags = {k: "line." + k for k in s["tags"]}
            steps.append(dict(t="event", ev=dict(k="log", path=path, value=text, ts=dict(abs=str(ts)), fields=fields, tags=tags if tags or rnd.random() < 0.5 else None)))
            want = {}
            alltags = o["tags"] if o["tags"] else {}
            meta = {"meta.time": rfc3339(ts), "meta.path": path, "meta.tags": dict(alltags), "text": text}
            for k, src in o["doc"].items():
                want[k] = vals[src] if src in vals else meta[src] if src in meta else src
            expect.append(dict(doc=want, meta=None))
        else:
            ev = {"tel": dict(k="tel", name="n", v=2, ts=5, tags={"a": "own"}), "raw": dict(k="raw", bytes='{"a":1}', enc="avro", order=5),
                  "flush": dict(k="flush", i=3)}[s["kind"]]
            steps.append(dict(t="event", ev=ev))
            expect.append(None)
    return dict(id="j%d" % n, cfg=cfg, steps=steps, expect=expect)

# ---------------------------------------------------------------- C10
def op(o, i=1, a="", b=""):
    return dict(op=o, i=i, a=a, b=b)

M_OPS = ["metric_name", "set_metric_name", "metric_tag_value", "metric_set_tag", "metric_remove_tag"]
L_OPS = ["log_value", "log_path", "log_set_value", "log_tag_value", "log_set_tag", "log_remove_tag", "log_field_value", "log_set_field"]

def programs(rnd, n, maxlen):
    """All programs of one operation, and sampled longer ones."""
    keys = ["k", "g", "f", "z"]
    ops = [op("push_metric", a="pm"), op("push_log", a="pl"), op("clear_metrics"), op("clear_logs"), op("fail")]
    for o in M_OPS + L_OPS:
        for i in (1, -1, 2, 0, -2, 3):
            ks = keys if "tag" in o or "field" in o else ["x"]
            for k in ks:
                ops.append(op(o, i, k, "w"))
    progs = [[]] + [[o] for o in ops]
    safe = [o for o in ops if o["i"] in (1, -1) or rnd.random() < 0.1]
    for _ in range(n):
        progs.append([rnd.choice(safe if rnd.random() < 0.93 else ops) for _ in range(rnd.randint(2, maxlen))])
    return progs

def lua_op(o, rnd):
    a, b, i = json.dumps(o["a"]), json.dumps(o["b"]), o["i"]
    f = o["op"]
    if f == "fail": return rnd.choice(('error("boom")', 'error({})', 'local x = nil; x.y = 1', 'error()', 'payload.nothing(p)'))
    if f == "push_metric": return "payload.push_metric(p, %s, 2.5)" % a
    if f == "push_log": return "payload.push_log(p, %s)" % a
    if f in ("clear_metrics", "clear_logs"): return "payload.%s(p)" % f
    if f in ("set_metric_name", "log_set_value"): return "payload.%s(p, %d, %s)" % (f, i, a)
    if f in ("metric_name", "log_value", "log_path"): return "note(payload.%s(p, %d))" % (f, i)
    if f in ("metric_set_tag", "log_set_tag", "log_set_field"): return "note(payload.%s(p, %d, %s, %s))" % (f, i, a, b)
    return "note(payload.%s(p, %d, %s))" % (f, i, a)

def script(progs, missing, rnd):
    s = ["local function note(x) local f = io.open(\"@DIR@/obs\", \"a\"); f:write(tostring(x), \"\\n\"); f:close() end",
         "local n = 0", "local progs = {}"]
    for k, p in enumerate(progs):
        s.append("progs[%d] = function(p) %s end" % (k + 1, "; ".join(lua_op(o, rnd) for o in p)))
    s.append("local function go(p) n = n + 1; progs[n](p) end")
    for kind, fn in (("metric", "process_metric"), ("log", "process_log"), ("pulse", "tick")):
        if kind not in missing: s.append("%s = go" % fn if rnd.random() < 0.5 else "function %s(p) go(p) end" % fn)
    return "\n".join(s) + "\n"

def programmable(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    inv = ["FailureClean", "PulseOnce", "RawUntouched", "EmitAll"]
    inputs = Tla('{[kind |-> "metric", i |-> 0], [kind |-> "log", i |-> 0], [kind |-> "raw", i |-> 0], %s}' % ", ".join('[kind |-> "pulse", i |-> %d]' % i for i in (1, 2, 3)))
    def pset(ps): return Tla("{" + ",\n".join(tla(p) for p in ps) + "}")
    short = [[], [op("fail")], [op("push_log", a="pl"), op("fail")], [op("push_metric", a="pm"), op("push_log", a="pl")], [op("clear_metrics"), op("clear_logs")]]
    jobs = [("Programmable", "every program of one operation, sampled longer ones, on every input",
             dict(constants=dict(Progs=pset(programs(rnd, 3000 if th else 400, 6)), Inputs=inputs, MaxEv=1, Missing=frozenset()), invariants=inv, workers=1)),
            ("Programmable", "every sequence of short programs",
             dict(constants=dict(Progs=pset(short[:4]), Inputs=inputs, MaxEv=3, Missing=frozenset()), invariants=inv, workers=1))]
    for missing in (["pulse"], ["metric"], ["log", "pulse"], ["metric", "log", "pulse"]):
        jobs.append(("Programmable", "script without functions for %s" % missing,
            dict(constants=dict(Progs=pset(short[:2] + short[3:4]), Inputs=inputs, MaxEv=2, Missing=frozenset(missing)), invariants=inv, workers=1)))
    jobs.append(("Programmable", "sampled long sequences", dict(constants=dict(Progs=pset(programs(rnd, 200, 5)), Inputs=inputs, MaxEv=60, Missing=frozenset()),
                 invariants=inv, next="NextSim", simulate=300 if th else 30, depth=70, seed=chk.seed, workers=1)))
    jobs.append(("Programmable", "long sequences without tick", dict(constants=dict(Progs=pset(short), Inputs=Tla('{[kind |-> "metric", i |-> 0]} \\cup {[kind |-> "pulse", i |-> k] : k \\in 1..300}'), MaxEv=1000, Missing=frozenset(["pulse"])),
                 invariants=["EmitAll"], next="NextSim", simulate=4, depth=1010, seed=chk.seed, workers=1)))
    miss = [[], [], ["pulse"], ["metric"], ["log", "pulse"], ["metric", "log", "pulse"], [], ["pulse"]]
    cases = []
    lim = chk.pick(3500, 20000)
    for r, m in zip(chk.models(jobs), miss):
        em = r.emitted
        if len(em) > lim:
            rnd.shuffle(em)
            em = em[:lim]
        for b in em:
            cases.append(lua_case(rnd, b, m, len(cases)))
    res = harness(chk.work, "filter", cases, timeout=900)
    chk.compare(cases, res, lambda c: c["expect"], observe=lambda r: [{k: v for k, v in o.items()} for o in r["obs"]])
    chk.sample(dict(steps=cases[0]["steps"], script=cases[0]["cfg"]["script"]))
    chk.assumptions.append("scripts handle UTF-8 text; payload.metric_query is not covered (its arguments are undocumented)")

DEF = dict(g="dg", k="dk")
def lua_case(rnd, b, missing, n):
    steps, expect, progs = [], [], []
    for s, o in zip(b["steps"], b["out"]):
        inp = s["in"]
        if inp["kind"] == "metric":
            e = dict(k="tel", name="n" + s["id"], kind=rnd.choice(("set", "sum")), v=rnd.randint(0, 9), ts=7, persist=rnd.random() < 0.5, tags={"k": "own"})
        elif inp["kind"] == "log":
            e = dict(k="log", value="v" + s["id"], path="p" + s["id"], ts=9, fields={"f": "own"}, tags={"k": "own"})
        elif inp["kind"] == "pulse":
            e = dict(k="flush", i=inp["i"])
        else:
            e = dict(k="raw", bytes="b" + s["id"], order=3, enc="avro", meta=None)
        e = dict(e, ts={"abs": str(e["ts"])}) if "ts" in e else e
        steps.append(dict(t="event", ev=e))
        if inp["kind"] != "raw" and inp["kind"] not in missing and (inp["kind"] != "pulse" or o["same"]):
            progs.append(s["prog"])
        out = []
        for l in o["logs"]:
            orig = l["path"] != "it"
            out.append(dict(k="log", path=l["path"] if orig else "filters.it", value=l["value"], ts={"abs": "9"} if orig else 0,
                            fields=dict(l["fields"] or {}), tags=dict(l["tags"] or {})))
        fresh = 0
        for m in o["metrics"]:
            # a metric pushed by the script has a value no input has
            orig = m.get("orig", None)
            out.append(dict(m=m))
        ms = []
        first = inp["kind"] == "metric" and not any(q["op"] == "clear_metrics" for q in s["prog"])
        for j, m in enumerate(o["metrics"]):
            if j == 0 and first:
                ms.append(dict(k="tel", name=m["name"], kind=e["kind"], v=e["v"], ts={"abs": "7"}, persist=e["persist"], tags=dict(m["tags"] or {})))
            else:
                ms.append(dict(k="tel", name=m["name"], kind="set", v=2.5, ts=0, persist=False, tags=dict(m["tags"] or {})))
        out = [x for x in out if "m" not in x] + ms
        if o["same"]:
            out.append(dict(k="flush", i=inp["i"]) if inp["kind"] == "pulse" else dict(k="raw", bytes=e["bytes"], order=3, enc="avro", meta=None))
        w = dict(out=out, noted=list(o["obs"]))
        if o["failed"]:
            w["failed"] = dict(k="tel", name="cernan.filter.filters.it.%s.failure" % o["failed"], kind="sum", v=1, ts=0, persist=False, tags={})
        expect.append(w)
    return dict(id="l%d" % n, cfg=dict(filter="lua", base="now", tags=DEF, script=script(progs, missing, rnd)), steps=steps, expect=expect)
