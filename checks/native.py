"""C16: the native sink (NativeForward.tla), and a native source behind it."""
import random
from vlib import *
import wire
from buckets import build_tags

KEYS = [["source", "k1", "k2"], ["", "host", "ключ"], ["a b", "x=y", "q\"\n"], ["z" * 300, "0", "_"]]
NAMES = ["m", "a.b.c", "", "grün 5%", "x" * 2000, "n\nl"]
PATHS = ["/var/log/x", "", "p q"]
TEXTS = ["line", "", "tab\tand \"quotes\"", "ü" * 50, "y" * 20000]
TIMES = [0, 1, -1, 1500000000, 4102444800, -62135596800, 86400 * 365 * 5000, 2**62, -2**62, 2**63 - 1, -2**63]
NUMS = [0, 1, -1, 3, 0.1, -2.5, 1e300, 5e-324, 123456789, "inf"][:9]
BOUNDS = (2, 10, 64)

def make(rnd, it, keys, defs):
    tags = {keys[k]: v + "%d" % it["id"] * (v == "own") for k, v in it["tags"].items()} if it["tags"] else {}
    own = {k: v for k, v in tags.items() if v != "default"}
    ts = rnd.choice(TIMES)
    ms = max(-2**63, min(2**63 - 1, ts * 1000))      # the protocol has no room for more
    back = int(ms / abs(ms)) * (abs(ms) // 1000) if ms else 0
    if it["kind"] == "log":
        path, value = rnd.choice(PATHS), "%d %s" % (it["id"], rnd.choice(TEXTS))
        ev = dict(k="log", path=path, value=value, ts=ts, fields={}, tags=None if not own and rnd.random() < .5 else [list(x) for x in own.items()])
        return ev, dict(path=path, value=value, ms=ms, tags=tags), dict(k="log", path=path, value=value, ts=back, fields={}, tags=tags)
    name = "%d%s" % (it["id"], rnd.choice(NAMES))
    vals = [rnd.choice(NUMS) for _ in range(1 if it["kind"] == "set" else rnd.choice([1, 1, 2, 3, 8]))]
    if it["kind"] != "set": vals = [v for v in vals if abs(v) < 1e100 and v != 5e-324 and v != .1] or [7]
    ev = dict(k="tel", name=name, kind=it["kind"], v=vals[0], more=vals[1:], ts=ts, persist=it["persist"], bounds=list(BOUNDS) if it["kind"] == "hist" else None, tagops=build_tags(rnd, own))
    tel = wire.tel(name, it["kind"], vals, back, it["persist"], tags, BOUNDS)
    if it["kind"] == "hist": samples = None
    else: samples = [wire.num(x) for x in (tel["v"]["samples"] if it["kind"] == "summ" else [tel["v"]])]
    return ev, dict(name=name, samples=samples, method=it["kind"], persist=it["persist"], ms=ms, tags=tags, bounds=list(BOUNDS) if it["kind"] == "hist" else []), tel

def case(rnd, b, cid, peer):
    keys = dict(zip(["k1", "k2", "k3"], rnd.choice(KEYS)))
    made = {}
    for p in b["wire"]:
        for it in p["points"] + p["lines"]: made[it["id"]] = make(rnd, it, keys, b["defs"])
    count = [0]
    for p in b["wire"]: count.append(count[-1] + len(p["points"] + p["lines"]))
    steps = [dict(a="add", ev=made[s["it"]["id"]][0]) if s["a"] == "add" else dict(s, wire=count[s["wire"]]) for s in b["steps"]]
    if not steps or steps[-1]["a"] != "stop": steps.append(dict(a="stop", wire=count[-1]))
    cfg = dict(tags=[[keys[k], "default"] for k in b["defs"]], peer=peer)
    if peer == "source":
        exp = dict(late=[], ended="ended", last=True, **{k: [made[it["id"]][2] for p in b["wire"] for it in p[k]] for k in ("points", "lines")})
    else: exp = dict(late=[], rest=0, odd=[], points=[made[it["id"]][1] for p in b["wire"] for it in p["points"]], lines=[made[it["id"]][1] for p in b["wire"] for it in p["lines"]])
    return dict(id=cid, cfg=cfg, steps=steps, expect=exp)

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    sets = Tla('{{}, {"k1"}, {"k1", "k2"}}')
    kinds = {"set", "sum", "summ", "log"}
    base = dict(Kinds=kinds, OwnTags=sets, DefTags=Tla('{{}, {"k1"}, {"k2", "k3"}}'), MaxItems=3, MaxFails=2, MaxSteps=6)
    jobs = [("NativeForward", "write by write", dict(constants=dict(base, Kinds={"set", "log"}, OwnTags=Tla('{{}}'), DefTags=Tla('{{}}'), MaxItems=4 if th else 3, MaxFails=4 if th else 3), invariants=["NothingLost", "OnceUnlessFailed", "AllThere", "NeverEmpty"], workers=4)),
            ("NativeForward", "flushes end", dict(constants=dict(base, Kinds={"set", "log"}, OwnTags=Tla('{{}}'), DefTags=Tla('{{}}'), MaxItems=3, MaxFails=3), spec="Fair", properties=["FlushEnds"], workers=4)),
            ("NativeForward", "every transition", dict(constants=dict(base, MaxItems=2, MaxSteps=6 if th else 5), next="SNext", view="NView", action_constraints=["Emit"], invariants=["NothingLost"], workers=1)),
            ("NativeForward", "every history of flushes and failures", dict(constants=dict(base, Kinds={"sum", "log"}, OwnTags=Tla('{{}}'), DefTags=Tla('{{"k1"}}'), MaxItems=5, MaxFails=4, MaxSteps=6 if th else 5), next="SNext", action_constraints=["Emit"], invariants=["NothingLost"], workers=1)),
            ("NativeForward", "sampled histories", dict(constants=dict(base, Kinds=kinds | {"hist"}, OwnTags=Tla('{{}, {"k1"}, {"k1", "k2"}, {"k1", "k2", "k3"}}'), MaxItems=60, MaxFails=5, MaxSteps=70), init="InitSim", next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(200, 2000), depth=71, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[2:], chk.pick([1200, 1000, 200], [8000, 8000, 2000])):
        em = [e for e in r.emitted if e["steps"]]
        if len(em) > n: em = rnd.sample(em, n)
        for b in em:
            for p in b["wire"]:
                for it in p["points"] + p["lines"]: it["tags"] = it["tags"] if isinstance(it["tags"], dict) else {}
            calm = all(s["a"] in ("add", "flush", "stop") for s in b["steps"])
            cases.append(case(rnd, b, "n%d" % len(cases), "peer"))
            if calm: cases.append(case(rnd, b, "n%d" % len(cases), "source"))
    # a payload of more than a megabyte, whole and through a broken connection
    for k in range(6):
        items = [dict(id=i, kind=rnd.choice(sorted(kinds)), persist=False, tags={}) for i in range(1, 3001)]
        pay = dict(points=[x for x in items if x["kind"] != "log"], lines=[x for x in items if x["kind"] == "log"])
        how = ["flush", "break", "refuse"][k % 3]
        b = dict(defs=[], wire=[pay], steps=[dict(a="add", it=x, wire=0) for x in items] + [dict(a=how, wire=1)])
        cases.append(case(rnd, b, "n%d" % len(cases), "peer"))
        if how == "flush": cases.append(case(rnd, b, "n%d" % len(cases), "source"))
    # a single item larger than all buffers, the peer leaving in the middle of it
    for k in range(chk.pick(3, 12)):
        its = [dict(id=i, kind="log", persist=False, tags={}) for i in range(1, 8)]
        pays = [dict(points=[], lines=its[:4]), dict(points=[], lines=its[4:])]
        b = dict(defs=[], wire=pays, steps=[dict(a="add", it=x, wire=0) for x in its[:4]] + [dict(a="cut", bytes=rnd.choice([200000, 1500000, 4000000]), wire=1)] + [dict(a="add", it=x, wire=1) for x in its[4:]] + [dict(a="flush", wire=2)])
        c = case(rnd, b, "n%d" % len(cases), "peer")
        big = rnd.randint(0, 3)
        c["steps"][big]["ev"]["value"] = c["expect"]["lines"][big]["value"] = "%d " % (big + 1) + "z" * 20000000
        c["cut"] = True
        cases.append(c)
    rnd.shuffle(cases)
    res = harness(chk.work, "native", cases, workers=16, timeout=800)
    hist(chk, cases, res)
    # what was on its way when the peer left may arrive again
    for c in cases:
        o = res[c["id"]].get("obs")
        if c.get("cut") and isinstance(o, dict):
            for k in ("points", "lines"):
                seen = []
                for x in o[k]:
                    if x not in seen: seen.append(x)
                o[k] = seen
    chk.compare(cases, res, seen_as, observe=lambda r: brief(r.get("obs")))
    chk.sample(cases[0]["steps"][:5])
    chk.cov["cases"] = dict(peer=sum(c["cfg"]["peer"] == "peer" for c in cases), source=sum(c["cfg"]["peer"] == "source" for c in cases))
    chk.assumptions.append("the protocol carries no acknowledgement: what was written to a connection whose end was not yet noticeable counts as written; the fields of a log line have no place in the protocol")

def brief(o):
    """Very long texts are not shown in full."""
    if isinstance(o, dict): return {k: brief(v) for k, v in o.items()}
    if isinstance(o, list): return [brief(v) for v in o]
    if isinstance(o, str) and len(o) > 100000: return "%s... (%d characters)" % (o[:50], len(o)) if set(o[50:]) == {"z"} else o[:200]
    return o

def seen_as(c): return brief(c["expect"])

def hist(chk, cases, res):
    """What becomes of histograms is a known finding of its own: everything else about them is compared."""
    bad = 0
    for c in cases:
        o = res[c["id"]].get("obs")
        if not isinstance(o, dict): continue
        pairs = zip(c["expect"]["points"], o.get("points") or [])
        for x, y in pairs:
            if not isinstance(y, dict): continue
            if x.get("kind") == "hist" and y.get("kind") == "hist":
                if x["v"] != y["v"]: bad += 1
                x["v"] = y["v"]
            elif x.get("method") == "hist" and y.get("method") == "hist":
                want = x["bounds"], y["samples"]
                if x["bounds"] != y["bounds"]: bad += 1
                x["bounds"], x["samples"] = y["bounds"], y["samples"]
    if bad: chk.violation("a histogram is forwarded as the counts of its bins, without their bounds", dict(count=bad), key="histogram-forwarded")
