"""C28 and C29: the sinks that speak HTTP (Influx.tla, Elastic.tla)."""
import json, math, random
from vlib import *
import wire

# ---------------------------------------------------------------- InfluxDB
MIN_NS, MAX_NS = -9223372036854775806, 9223372036854775806
NAMES = ["a", "a.b.c", "a b", "a,b", "a=b", "ü.é", "a\"b", " lead", "t\tb", "x" * 60, "'q'", "a b,c=d e"]
TAGS = [("k", "v"), ("k k", "v w"), ("k,k", "v,w"), ("k=k", "v=w"), ("é", "ü"), ("q\"", "\"q\""), ("long", "y" * 70), ("time", "1"), ("host", "h-1.x"), ("empty", ""), ("", "nokey")]
TIMES = [0, 1, -1, 1500000000, -62135596800, 9223372036, -9223372036, 9223372037, 2**62, -2**62, -(2**63)]
VALUES = [0, 1, -1, 0.5, -2.25, 1e18, 1e300, -1e300, 1e-300, 3, 123456789.125]
QS = [0.25, 0.5, 0.75, 0.9, 0.99, 1.0]
SET_NAMES = ["", "\\", "nl\nx"]      # cannot be the name of a measurement

def telemetry(rnd, k, n):
    kind = {"odd": None}.get(k, k) or rnd.choice(["set", "sum", "summ", "hist"])
    ev = dict(kind=kind, name=rnd.choice(NAMES) if rnd.random() < .5 else "m%d" % (n % 3), ts=dict(abs=str(rnd.choice(TIMES) if rnd.random() < .5 else rnd.randrange(10**9, 2 * 10**9))))
    m = {"set": 2, "sum": 3, "summ": rnd.choice([1, 2, 5, 20]), "hist": rnd.choice([1, 3, 6])}[kind]
    vals = [rnd.choice(VALUES) if rnd.random() < .5 else rnd.randrange(-1000, 1000) / 8 for _ in range(m)]
    if kind == "sum": vals = [v for v in vals if abs(v) < 1e17] or [2]
    if k == "odd":
        x = rnd.randrange(3)
        if x == 0 and kind in ("set", "sum"): vals.append(rnd.choice(["nan", "inf", "-inf"]))
        elif x == 1: ev["name"] = rnd.choice(SET_NAMES)
    ev.update(v=vals[0], more=vals[1:], tags=[list(t) for t in rnd.sample(TAGS, rnd.choice([0, 0, 1, 2, 4]))])
    if kind == "hist": ev["bounds"] = rnd.choice([[0], [-10, 0.5, 100], [1, 2, 3, 4]])
    return ev

def number(x):
    if x == "nan": return math.nan
    return float(x)

def points(ev, dflt):
    """What InfluxDB is to hold of one item: [measurement, tags, values it may be, time]."""
    name = ev["name"]
    if name in SET_NAMES: return []
    tags = dict(dflt); tags.update(dict(map(tuple, ev["tags"])))
    tags = {k: v for k, v in tags.items() if k and v}
    ts = max(MIN_NS, min(MAX_NS, int(ev["ts"]["abs"]) * 10**9))
    vals = [number(x) for x in [ev["v"]] + ev["more"]]
    kind = ev["kind"]
    if kind == "set": ps = [("", [vals[-1]])]
    elif kind == "sum":
        t = vals[0]
        for v in vals[1:]: t += v
        ps = [("", [t])]
    elif kind == "hist":
        bs = sorted(map(float, ev["bounds"])) + [math.inf]
        ps = [(".le_" + ("inf" if b == math.inf else plain(b)), [float(sum(1 for v in vals if (i == 0 or v > bs[i - 1]) and v <= b))]) for i, b in enumerate(bs)]
    else:
        vs, ps = sorted(vals), []
        for q in QS: ps.append((".%g" % q, sorted({vs[i] for i in range(len(vs)) if abs(i - q * (len(vs) - 1)) <= 1.01})))
    return [(name + s, tags, vs, ts) for s, vs in ps if all(map(math.isfinite, vs))]

def plain(x):
    return "%d" % x if x == int(x) else repr(x)

def cut(s, stops):
    """Up to the first character of stops that has no backslash before it."""
    i = 0
    while i < len(s) and not (s[i] in stops and (i == 0 or s[i - 1] != "\\")): i += 1
    return s[:i], s[i:]

def unescape(s, chars):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in chars: i += 1
        out += s[i]
        i += 1
    return out

def parse(line):
    """A line as InfluxDB reads it, or None if it refuses it."""
    m, rest = cut(line, ", ")
    m = unescape(m, ", ")
    tags = {}
    while rest.startswith(","):
        k, rest = cut(rest[1:], "=, ")
        if not rest.startswith("=") or not k: return None
        v, rest = cut(rest[1:], ", =")
        if not v or rest.startswith("="): return None
        k = unescape(k, ",= ")
        if k in tags: return None
        tags[k] = unescape(v, ",= ")
    p = rest.split(" ")
    if not m or m.startswith("#") or len(p) != 3 or p[0] != "" or not p[1].startswith("value="): return None
    try: v, t = float(p[1][6:]), int(p[2])
    except ValueError: return None
    if not math.isfinite(v) or not MIN_NS <= t <= MAX_NS: return None
    return m, tags, v, t

def influx_case(rnd, log, cid):
    steps, items = [], []
    dflt = [list(t) for t in rnd.sample(TAGS, rnd.choice([0, 0, 1, 2]))]
    codes = dict(client=["400", "404", "413", "429"], server=["500", "503"], other=["300", "304"], ok=["204", "200"], drop=["drop"])
    for st in log:
        if st["a"] == "add":
            ev = telemetry(rnd, st["k"], len(items))
            items.append(ev)
            steps.append(dict(a="add", ev=ev))
        else:
            steps.append(dict(a=st["a"], replies=[rnd.choice(codes[r]) for r in st["replies"]], kinds=st["replies"], waits=st["waits"], **{"from": st["from"], "to": st["to"]}))
    return dict(id=cid, cfg=dict(tags=dflt, db=rnd.choice(["the_db", "x-1"])), steps=steps)

def influx_expect(c):
    items, out = [s["ev"] for s in c["steps"] if s["a"] == "add"], []
    for st in c["steps"]:
        if st["a"] == "add":
            out.append(dict(valve="open", counted=[0, 0, 0, 0], batch=None))
            continue
        k = st["kinds"]
        out.append(dict(valve="gone" if st["a"] == "stop" else "open", counted=[len(k), 1, k.count("client"), k.count("server")], batch="as delivered", line="POST /write?db=%s HTTP/1.1" % c["cfg"]["db"], replies=st["replies"], same=True, soon=[]))
    return out

def influx_observe(c, r):
    o = r.get("obs")
    if o is None: return None
    items = [s["ev"] for s in c["steps"] if s["a"] == "add"]
    out = []
    for st, x in zip(c["steps"], o):
        y = dict(valve=x["valve"], counted=x["counted"], batch=None)
        rq = x["requests"]
        if st["a"] != "add" or rq:
            exp = [p for ev in items[st["from"] - 1:st["to"]] for p in points(ev, c["cfg"]["tags"])] if st["a"] != "add" else []
            got = rq[0]["body"].split("\n") if rq else []
            y["batch"] = compare_batch(exp, got)
            y["line"] = rq[0]["line"] if rq and all(q["line"] == rq[0]["line"] for q in rq) else [q["line"] for q in rq]
            y["replies"] = [q["reply"] for q in rq]
            y["same"] = all(q["body"] == rq[0]["body"] for q in rq)
            y["soon"] = [[w, q["after"]] for w, q in zip(st.get("waits", []), rq) if q["after"] < w]
        out.append(y)
    return out

def compare_batch(exp, got):
    if not got or got.pop() != "": return "no line break at the end"
    if len(exp) != len(got): return dict(expected=len(exp), lines=got)
    for e, line in zip(exp, got):
        g = parse(line)
        if g is None: return dict(refused=line, expected=e)
        near = any(g[2] == v or abs(g[2] - v) <= 1e-12 * abs(v) for v in e[2])
        if g[0] != e[0] or g[1] != e[1] or not near or g[3] != e[3]: return dict(read=g, expected=e)
    return "as delivered"

def influx(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    kinds = {"set", "sum", "summ", "hist", "odd"}
    rep = {"ok", "lost", "drop", "client", "server", "other"}
    inv = ["Written", "Once", "Ordered"]
    base = dict(Kinds={"set"}, MaxItems=3, MaxSteps=6, MaxTries=3, Replies=rep)
    jobs = [("Influx", "deliveries, attempts and replies", dict(constants=dict(base, MaxItems=5 if th else 3), invariants=inv, properties=["Kept"], constraints=["Bounded"], workers=4)),
            ("Influx", "flushes end", dict(constants=dict(base, MaxItems=2, MaxTries=3), spec="Fair", properties=["Ends"], constraints=["Bounded"], workers=4)),
            ("Influx", "every short history", dict(constants=dict(base, MaxItems=2, MaxSteps=4 if th else 3, MaxTries=2), next="SNext", action_constraints=["Emit"], workers=1)),
            ("Influx", "sampled histories", dict(constants=dict(base, Kinds=kinds, MaxItems=1000, MaxSteps=20, MaxTries=4), next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(200, 1500), depth=21, workers=1)),
            ("Influx", "long struggles", dict(constants=dict(base, Kinds=kinds, MaxItems=1000, MaxSteps=7, MaxTries=11), next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(16, 100), depth=8, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[2:], chk.pick([300, 200, 16], [4000, 1500, 100])):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(influx_case(rnd, b, "i%d" % len(cases)))
    rnd.shuffle(cases)
    # as many as it holds before it is full
    one = dict(kind="set", name="m", v=1, ts=dict(abs="5"), tags=[], more=[])
    full = dict(id="full", cfg=dict(tags=[], db="d"), steps=[dict(a="add", ev=one, times=100000), dict(a="add", ev=one), dict(a="flush", replies=["204"])])
    res = harness_apart("C28", "influx", cases + [full], parts=24)
    for c in cases:
        if "obs" in res[c["id"]]: res[c["id"]]["obs"] = influx_observe(c, res[c["id"]])
    chk.compare(cases, res, influx_expect)
    chk.compare([full], res, lambda c: [["open", 0], ["closed", 0], ["open", 100001]], observe=lambda r: [[x["valve"], sum(q["body"].count("\n") for q in x["requests"])] for x in r["obs"]])
    chk.sample(cases[0]["steps"][:4])
    chk.cov["cases"] = dict(histories=len(cases), items=sum(s["a"] == "add" for c in cases for s in c["steps"]), attempts=sum(len(s.get("replies", [])) for c in cases for s in c["steps"]))
    chk.assumptions.append("the build has no OpenSSL: plain HTTP only; names and tags with a backslash are not covered, except as the last character of a name")

# ----------------------------------------------------------- Elasticsearch
API = [('{"error":{"type":"index_not_found_exception","index":"i"},"status":404}', 404, 7), ('{"error":{"type":"parsing_exception","line":1,"col":2,"reason":"r"},"status":400}', 400, 8),
       ('{"error":{"type":"mapper_parsing_exception","reason":"r"},"status":400}', 400, 9), ('{"error":{"type":"action_request_validation_exception","reason":"r"},"status":400}', 400, 10),
       ('{"error":{"type":"document_missing_exception","index":"i"},"status":404}', 404, 11), ('{"error":{"type":"index_already_exists_exception","index":"i"},"status":400}', 400, 12),
       ('{"error":{"type":"es_rejected_execution_exception","reason":"r"},"status":429}', 429, 13), ('{}', 503, 13), ('{"error":"IndexMissingException"}', 500, 13),
       ("busy", 503, 14), ("", 502, 14), ("<html>", 200, 14), ('{"took":1}', 200, 14)]
ERRORS = [{"type": "mapper_parsing_exception", "reason": "r"}, {"type": "es_rejected_execution_exception", "reason": "full"}, "old style", {}]
WORDS = ["", "line", "two words", "\"q\" \\ {}", "tab\tnl\nx", "ü→", "x" * 90, "\0\x7f", "{\"a\":1}"]
KEYS = ["k", "host", "a b", "ü", "uuid2", "q\"", "n\nl", "Path"]
LTIMES = [0, -1, 951782400, 951827696, 4102444799, 1500000000, -62135596800, 253402300799, -62167219201, 253402300800, 8210298412800, -8334632851201, 2**63 - 1, -2**63]

def iso(t):
    return wire.iso_date(t) + "+00:00"

def elastic_case(rnd, log, cid, limit):
    cfg = dict(limit=limit, tags=[[k, rnd.choice(WORDS)] for k in rnd.sample(KEYS, rnd.choice([0, 0, 1, 3]))])
    if rnd.random() < .5: cfg["prefix"] = rnd.choice(["logs", "a-b", "ü"])
    if rnd.random() < .5: cfg["type"] = rnd.choice(["t", "log line"])
    steps = []
    for st in log:
        if st["a"] == "add":
            kv = lambda: [[k, rnd.choice(WORDS)] for k in rnd.sample(KEYS, rnd.choice([0, 0, 1, 2, 4]))]
            steps.append(dict(a="add", ev=dict(path=rnd.choice(["/var/log/x", "p", "", "ü p"]), value=rnd.choice(WORDS), ts=dict(abs=str(rnd.choice(LTIMES))) if rnd.random() < .6 else dict(abs=str(rnd.randrange(0, 2 * 10**9))), fields=kv(), tags=kv())))
            continue
        s = dict(a=st["a"], sent=st["sent"], left=st["left"])
        if st["how"] == "items":
            s["reply"] = dict(how="items", items=[[i["pos"], None if i["ok"] else rnd.choice(ERRORS), rnd.choice(["index", "index", "create", "update", "delete"])] for i in st["items"]])
            if rnd.random() < .1: s["reply"]["items"].insert(rnd.randrange(len(st["items"]) + 1), [rnd.choice(["67e55044-10b1-426f-9247-bb680e5fe0c8", "not an id", ""]), rnd.choice([None, "e"]), "index"])
        elif st["how"] == "drop": s["reply"] = dict(how="drop")
        else:
            body, status, n = rnd.choice([a for a in API if (a[2] == 14) == (st["how"] == "garbled")])
            s["reply"] = dict(how="status", status=status, body=body, counter=n)
        steps.append(s)
    return dict(id=cid, cfg=cfg, steps=steps)

def document(c, ev, n):
    t = int(ev["ts"]["abs"])
    day = iso(t).split("T")[0]
    head = dict(_index=c["cfg"]["prefix"] + "-" + day if "prefix" in c["cfg"] else day, _type=c["cfg"].get("type", "payload"), _id=n)
    doc = dict(uuid=n, path=ev["path"], payload=ev["value"], timestamp=iso(t))
    for kv in (c["cfg"]["tags"], ev["tags"], ev["fields"]): doc.update({k: v for k, v in kv})
    return [head, doc]

def elastic_expect(c):
    evs, out = [], []
    for st in c["steps"]:
        n, rq = [0] * 16, []
        if st["a"] == "add": evs.append(st["ev"])
        elif st["sent"]:
            rq = [dict(line="POST /_bulk HTTP/1.1", type="application/json", docs=[document(c, evs[i - 1], i) for i in st["sent"]])]
            r = st["reply"]
            if r["how"] == "items":
                n[0] = 1
                for p, err, act in r["items"]:
                    if isinstance(p, str): continue
                    if err is None: n[1] += 1
                    else:
                        n[2] += 1
                        n[{"index": 3, "create": 4, "update": 5, "delete": 6}[act]] += 1
            elif r["how"] == "status": n[r["counter"]] = 1
        out.append(dict(valve="gone" if st["a"] == "stop" else "open", counted=n, requests=rq))
    return out

def elastic(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    whole = {"drop", "refused", "garbled"}
    inv = ["Accounted", "InOrder", "NotTooOften"]
    jobs = [("Elastic", "lines, requests and replies, up to %d refusals" % l, dict(constants=dict(Limit=l, MaxLines=5 if th else 4, MaxSteps=1, Whole=whole), invariants=inv, properties=["GivenUp"], workers=4)) for l in (0, 2, 3)]
    jobs += [("Elastic", "every line leaves", dict(constants=dict(Limit=2, MaxLines=3, MaxSteps=1, Whole=whole), spec="Fair", properties=["Empties"], workers=4))]
    limits = [1, 2, 0, 1, 3, 10]
    jobs += [("Elastic", "every transition, limit %d" % l, dict(constants=dict(Limit=l, MaxLines=3, MaxSteps=9, Whole=whole), next="SNext", view="SView", action_constraints=["Emit"], workers=1)) for l in limits[:2]]
    jobs += [("Elastic", "sampled histories, limit %d" % l, dict(constants=dict(Limit=l, MaxLines=1000, MaxSteps=40, Whole=whole), next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(40, 400), depth=41, workers=1)) for l in limits[2:]]
    jobs += [("Elastic", "the largest limit", dict(constants=dict(Limit=255, MaxLines=2, MaxSteps=530, Whole={"drop"}), next="SNextNo", invariants=["EmitDeep"], simulate=1, depth=531, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, l, n in zip(rs[4:], limits + [255], chk.pick([300, 300, 40, 40, 40, 40, 1], [3000, 3000, 400, 400, 400, 400, 1])):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(elastic_case(rnd, b, "e%d" % len(cases), l))
    rnd.shuffle(cases)
    one = dict(path="p", value="v", ts=dict(abs="5"))
    full = dict(id="full", cfg=dict(limit=1), steps=[dict(a="add", ev=one, times=10000), dict(a="add", ev=one)])
    res = harness_apart("C29", "elastic", cases + [full])
    chk.compare(cases, res, elastic_expect)
    chk.compare([full], res, lambda c: ["open", "closed"], observe=lambda r: [x["valve"] for x in r["obs"]])
    chk.sample(cases[0]["steps"][:4])
    chk.cov["cases"] = dict(histories=len(cases), lines=sum(s["a"] == "add" for c in cases for s in c["steps"]), requests=sum(bool(s.get("sent")) for c in cases for s in c["steps"]))
    chk.assumptions.append("the build has no OpenSSL: plain HTTP only; fields and tags do not carry the names the sink uses itself")

def run(chk):
    influx(chk) if chk.prop == "C28" else elastic(chk)
