"""C31: what a configuration file means (Config.tla)."""
import json, random
from vlib import *

PORT = {"sinks.wavefront": 2878, "sinks.influxdb": 8086, "sinks.prometheus": 8086, "sinks.elasticsearch": 9200, "sinks.native": 1972, "sources.statsd": 8125, "sources.graphite": 2003, "sources.avro": 2002, "sources.native": 1972}
PCT = {"min": 0.0, "max": 1.0, "2": .02, "9": .09, "25": .25, "50": .5, "75": .75, "90": .9, "91": .91, "95": .95, "98": .98, "99": .99, "999": .999}
DEFAULT = {"forwards": [], "parse_line": False, "bin_width": 1, "age_threshold": None, "percentiles": [list(x) for x in sorted(PCT.items())], "padding": [False] * 4, "db": "cernan", "capacity_in_seconds": 600,
           "index-prefix": None, "index_type": "payload", "delivery_attempt_limit": 10, "librdkafka": None, "max_message_bytes": 10 << 20, "max_read_bytes": 2048, "mapping": [], "summarize_error_bound": .01, "ip": "0.0.0.0",
           "max-hopper-in-memory-bytes": 1 << 20, "max-hopper-queue-bytes": 100 << 20, "max-hopper-queue-files": 100, "data-directory": "/tmp/cernan-data", "scripts-directory": "/tmp/cernan-scripts", "flush-interval": 6000, "tags": {}}
SINGLE = {"sinks.null", "sinks.console", "sinks.wavefront", "sinks.influxdb", "sinks.prometheus", "sinks.elasticsearch", "sinks.native", "sources.internal"}
WORDS = ["a", "x y", "ü", "127.0.0.1", "example.com", "", "sinks.console", "it's", "a\"b", "a\\b", "#no comment", "[x]", "9", "true"]
ENV = {"VH_TAG_A": "from the environment", "VH_TAG_B": "b=1", "VH_EMPTY": ""}
WRONG = {"int": ["\"7\"", "true", "1.5", "[1]"], "str": ["7", "false", "[\"a\"]"], "bool": ["\"true\"", "1", "0.0"], "float": ["\"0.1\"", "true"], "list": ["\"a\"", "7", "[1]"], "secs": ["\"1\"", "true", "[1]"], "table": ["7", "true", "\"x\"", "[1]"]}
TYPE = {"forwards": "list", "parse_line": "bool", "secure": "bool", "enabled": "bool", "host": "str", "ip": "str", "db": "str", "index-prefix": "str", "index_type": "str", "topic": "str", "brokers": "str", "path": "str", "script": "str",
        "data-directory": "str", "scripts-directory": "str", "summarize_error_bound": "float", "padding": "table", "percentiles": "table", "librdkafka": "table", "mapping": "table", "flush_interval": "secs", "flush-interval": "secs"}

def quote(s):
    return json.dumps(s, ensure_ascii=False)

def key(s):
    return s if s and all(c.isascii() and (c.isalnum() or c in "-_") for c in s) else quote(s)

def integer(rnd, top):
    return rnd.choice([0, 1, 2, rnd.randrange(min(top, 1000)), rnd.randrange(top + 1), top])

def value(rnd, kind, opt, v):
    """(lines that give it, sub-tables, what it means)"""
    t = TYPE.get(opt, "int")
    if v == 9: return rnd.choice(WRONG[t]), None, None
    if v == 8:
        big = {"port": [65536, 70000, 65535 + 2**16, 2**32] if kind != "sinks.elasticsearch" else [], "delivery_attempt_limit": [256, 300, 2**16], "flush_interval": [2**60, 1e30], "flush-interval": [2**62, 1e19]}
        return repr(rnd.choice([-1, -1, -2, -2**15, -2**63] + big.get(opt, []) + ([-.5, -1e30] if t == "secs" else []))).replace("e+", "e"), None, None
    if opt == "enabled": return ("true" if v == 1 else "false"), None, None
    if opt == "padding":
        d = {k: rnd.random() < .5 for k in ["set", "sum", "summarize", "histogram"] if rnd.random() < .7}
        return None, {k: str(x).lower() for k, x in d.items()}, [d.get(k, False) for k in ["set", "sum", "summarize", "histogram"]]
    if opt == "percentiles":
        d = {k: rnd.choice([0.0, 1.0, .5, .25, .999, .0625]) for k in rnd.sample(["min", "p50", "99", "a.b", "x y"], rnd.randrange(4))}
        return None, {k: repr(x) for k, x in d.items()}, [list(x) for x in sorted(d.items())]
    if opt == "librdkafka":
        d = {k: rnd.choice([("7", "7"), ("\"7\"", "7"), ("true", "true"), ("false", "false"), ("0.5", "0.5"), ("-3", "-3"), (quote("a b"), "a b"), ("[1]", None)]) for k in rnd.sample(["batch.num.messages", "acks", "x", "compression.codec"], rnd.randrange(4))}
        return None, {k: x[0] for k, x in d.items()}, {k: x[1] for k, x in d.items() if x[1] is not None}
    if opt == "mapping":
        d = {k: (rnd.choice(["foo.*", "^a\\.b$", "x+", "", "é"]), [rnd.choice([0.0, 1.5, -2.25, 1e9, 10.0]) for _ in range(rnd.randrange(4))]) for k in rnd.sample(["a", "B", "zz", "m 1", "0"], rnd.randrange(1, 4))}
        return None, {k: {"mask": quote(m), "bounds": "[%s]" % ", ".join(map(repr, b))} for k, (m, b) in d.items()}, [list(d[k]) for k in sorted(d, key=lambda x: x.encode(), reverse=True)]
    if opt in ("flush_interval", "flush-interval"):
        f = rnd.choice([0, 1, 2, 10, 60, 3600, .25, .5, 1.75, 0.0, 2.0, 1000.5])
        return repr(f), None, int(f * 100)
    if opt == "summarize_error_bound":
        f = rnd.choice([.01, .001, .5, 0.0, .25])
        return repr(f), None, f
    if t == "bool":
        b = v == 1
        return str(b).lower(), None, b
    if t == "list":
        l = [rnd.choice(WORDS) for _ in range(rnd.randrange(1 if v == 1 else 0, 4))] if kind not in ("sources.statsd", "sources.graphite", "sources.avro") else [rnd.choice(WORDS) for _ in range(rnd.randrange(1, 4))]
        return "[%s]" % ", ".join(map(quote, l)), None, l
    if t == "str":
        w = rnd.choice(["/var/log/a", "rel/b", "/tmp/ü x", "c.lua"]) if opt in ("path", "script", "data-directory", "scripts-directory") else rnd.choice(WORDS)
        return (quote(w) if "'" in w or rnd.random() < .5 else "'%s'" % w), None, w
    top = {"port": 65535, "delivery_attempt_limit": 255}.get(opt, 2**53)
    i = integer(rnd, top)
    return str(i), None, i

def default(kind, opt):
    if opt == "port": return PORT[kind]
    if opt == "host": return "127.0.0.1" if kind == "sinks.elasticsearch" else "localhost"
    if opt == "secure": return kind == "sinks.influxdb"
    return DEFAULT[opt]

def table(rnd, path, entries):
    """A table as sections or inline, its entries in any order: (text to go under the parent's heading, sections)."""
    head, rest = [], []
    items = list(entries.items())
    rnd.shuffle(items)
    for k, x in items:
        if isinstance(x, dict):
            if rnd.random() < .3: head.append("%s = %s" % (key(k), inline(x)))
            else: rest.append(section(rnd, path + [k], x))
        else: head.append("%s%s = %s%s" % (rnd.choice(["", "  "]), key(k), x, rnd.choice(["", "", "  # as it is"])))
    rnd.shuffle(rest)
    return head, rest

def inline(d):
    return "{ %s }" % ", ".join("%s = %s" % (key(k), inline(x) if isinstance(x, dict) else x) for k, x in d.items()) if d else "{}"

def section(rnd, path, entries):
    head, rest = table(rnd, path, entries)
    return "\n".join(["[%s]" % ".".join(map(key, path))] + head + rnd.choice([[], [""]]) + rest)

def case(rnd, b, cid):
    g, glob, tree = {}, {}, {}
    for o, v in b["glob"]:
        if o == "tags":
            d = {}
            if v == 9:
                if rnd.random() < .3: glob["tags"] = rnd.choice(WRONG["table"])
                else: tree["tags"] = {"ok": "\"ok\"", "host": rnd.choice(["7", "true", "[\"a\"]", "{ environment = true, value = \"VH_NOT_SET\" }", "{ environment = true }", "{ environment = true, value = 7 }"])}
            elif v:
                for k in rnd.sample(["host", "env", "a b", "ü", "source"], rnd.randrange(1, 4)):
                    d[k] = rnd.choice([(quote(w), w) for w in WORDS] + [("{ environment = true, value = %s }" % quote(e), x) for e, x in ENV.items()])
                tree["tags"] = {k: x[0] for k, x in d.items()}
            g[o] = {k: x[1] for k, x in d.items()}
            continue
        if v: glob[o], _, g[o] = value(rnd, "", o, v)
        else: g[o] = DEFAULT[o]
    names = {}
    means = {}
    for st in b["stages"]:
        kind, n = st["at"]
        top, sub = kind.split(".")
        at = tree.setdefault(top, {}).setdefault(sub, {})
        full = kind
        if kind not in SINGLE:
            nm = names.setdefault((kind, n), rnd.choice([x for x in ["a", "primary", "x-1", "Two", "a.b", "x y", "3"] if (kind, x) not in names.values()]))
            if isinstance(nm, str): names[(kind, n)] = (kind, nm)
            full = "%s.%s" % (kind, nm)
            at = at.setdefault(nm, {})
        m = means[(kind, n)] = dict(full=full)
        for o, v in st["opts"]:
            if v:
                txt, sub, x = value(rnd, kind, o, v)
                at[o] = sub if txt is None else txt
                m[o] = x
    exp = "refused"
    if not b["refused"]:
        stages = {"sources.internal": {"forwards": []}}
        for e in b["means"]:
            kind, n = e["at"]
            own, got = means[(kind, n)], {}
            for o, (src, v) in e["opts"]:
                if src == "own": got[o] = own[o]
                elif src == "default": got[o] = default(kind, o)
                else: got[o] = g[{"flush_interval": "flush-interval", "tags": "tags", "scripts": "scripts-directory"}[o]]
            if kind == "filters.programmable": got["script"] = got["script"] if got["script"].startswith("/") else got["scripts"].rstrip("/") + "/" + got["script"] if got["scripts"] else got["script"]
            stages[own["full"]] = got
        exp = dict({k: v for k, v in g.items() if k != "tags"}, stages=stages)
    # an option given inline may end the whole table of its parent, so that the top level comes first
    heads = ["%s = %s" % x for x in glob.items()]
    rnd.shuffle(heads)
    tops = list(tree.items())
    rnd.shuffle(tops)
    secs = []
    for t, x in tops: secs.append(section(rnd, [t], x))
    return dict(id=cid, text="\n".join(heads + secs) + "\n", expect=exp)

def insts(*kinds, n=1):
    return Tla("{" + ", ".join('<<"%s", %d>>' % (k, i) for k in kinds for i in range(1, (1 if k in SINGLE else n) + 1)) + "}")

ALL = ["filters.delay", "filters.flush_boundary", "filters.json_encode", "filters.programmable", "sinks.null", "sinks.console", "sinks.wavefront", "sinks.influxdb", "sinks.prometheus", "sinks.elasticsearch", "sinks.native",
       "sinks.kafka", "sources.files", "sources.statsd", "sources.graphite", "sources.avro", "sources.native", "sources.internal"]
GLOBALS = ["max-hopper-in-memory-bytes", "max-hopper-queue-bytes", "max-hopper-queue-files", "data-directory", "scripts-directory", "flush-interval", "tags"]

def run(chk):
    th = chk.thorough
    inv, pr = ["Own"], ["Local"]
    jobs = [("Config", "globals", dict(constants=dict(Insts=insts("sinks.console", "filters.programmable"), Vals={1, 2}, Bad=True, GlobalOpts=set(GLOBALS), MaxOps=4), invariants=inv + ["Emit"], properties=pr, view="View", workers=1))]
    groups = [["sinks.wavefront"], ["sinks.elasticsearch"], ["sinks.influxdb"], ["sinks.prometheus", "sinks.native"], ["sinks.kafka"], ["sources.statsd"], ["sources.files", "sources.internal", "sinks.null"], ["sources.graphite", "sources.avro"],
              ["sources.native", "filters.json_encode"], ["filters.delay", "filters.flush_boundary"], ["filters.programmable", "sinks.console"]]
    for gr in groups:
        jobs.append(("Config", "all options of " + ", ".join(gr), dict(constants=dict(Insts=insts(*gr), Vals={1}, Bad=True, GlobalOpts={"flush-interval", "tags"}, MaxOps=20 if len(gr) == 1 else 9 if th else 6),
                     invariants=inv + ["Emit"], properties=pr, view="View", workers=1)))
    jobs.append(("Config", "sampled files", dict(constants=dict(Insts=insts(*ALL, n=3), Vals={1, 2}, Bad=True, GlobalOpts=set(GLOBALS), MaxOps=90), next="NextSim", invariants=inv + ["EmitDeep"], properties=pr,
                 simulate=4000 if th else 400, depth=95, seed=chk.seed, workers=1)))
    jobs.append(("Config", "sampled small files", dict(constants=dict(Insts=insts(*ALL, n=2), Vals={1, 2}, Bad=False, GlobalOpts=set(GLOBALS), MaxOps=12), next="NextSim", invariants=inv + ["EmitDeep"], properties=pr,
                 simulate=8000 if th else 1000, depth=15, seed=chk.seed, workers=1)))
    rnd = random.Random(chk.seed)
    cases = []
    lim = chk.pick(1500, 20000)
    for r in chk.models(jobs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em:
            for _ in range(chk.pick(1, 3)): cases.append(case(rnd, b, "k%d" % len(cases)))
    rnd.shuffle(cases)
    res = harness(chk.work, "config", cases, timeout=600, env=ENV)
    # a file may also be refused by ending the program
    chk.compare(cases, res, lambda c: c["expect"], norm=lambda o: "refused" if isinstance(o, dict) and set(o) == {"crash"} else o)
    chk.sample(cases[0])
    chk.assumptions.append("percentiles and bounds are written as floats")
