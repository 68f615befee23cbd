"""C05: sending to several forwards (Fanout.tla, FanoutTrace.tla)."""
import random, uuid
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from buckets import build_tags

BIG = 1400000
NUMS = [0, 1, -1, 3.5, 1e300, -5e-324, 123456789]
TEXTS = ["", "x", "tab\t\"q\"\n", "grün ✓", "y" * 3000]
TAGS = [{}, {"source": "x"}, {"": "", "k": "v w"}, {"t%d" % i: "x" * i for i in range(12)}]

def small(rnd, s, k):
    """An event of any kind, different from all others."""
    kind = rnd.choice(["set", "sum", "summ", "hist", "log", "raw", "raw", "flush"])
    name = "%d.%d%s" % (s, k, rnd.choice(TEXTS))
    ts = rnd.choice([0, 1, -1, 1500000000, {"abs": str(2**63 - 1)}, {"abs": str(-2**63)}])
    if kind == "flush": return dict(k="flush", i=s * 1000000 + k)
    if kind == "raw":
        return dict(k="raw", order=rnd.choice([0, 1, 2**64 - 1]), enc=rnd.choice(["raw", "avro", "json"]), bytes=name, conn=rnd.choice([None, str(uuid.UUID(int=rnd.getrandbits(128)))]),
                    meta=rnd.choice([None, [], [["id", "1"]], [["a", ""], ["", "b"], ["ü", "\n"]]]))
    tags = rnd.choice(TAGS)
    if kind == "log":
        return dict(k="log", path=rnd.choice(TEXTS), value=name, ts=ts, fields=rnd.choice([{}, {"f": "1", "g": ""}]), tags=rnd.choice([None, [list(x) for x in tags.items()]]))
    vals = [rnd.choice(NUMS) for _ in range(1 if kind == "set" else rnd.randint(1, 6))]
    return dict(k="tel", name=name, kind=kind, v=vals[0], more=vals[1:], ts=ts, persist=rnd.random() < .4, bounds=[1, 10, 100.5] if kind == "hist" else None, tagops=build_tags(rnd, tags))

def big(rnd, s, k, size=BIG):
    return dict(big=rnd.choice(["tel", "log", "raw"]), name="%d.%d." % (s, k), size=size)

def case(rnd, b, cid):
    """Capacities are exact for events too large for the disk; small ones always find room there."""
    caps = b["cap"]
    bounded = any(caps)
    steps = []
    for st in b["steps"]:
        if st["a"] == "send": steps.append(dict(st, ev=big(rnd, *st["e"]) if bounded else small(rnd, *st["e"])))
        else: steps.append(st)
    senders = max([st["s"] for st in steps] + [1])
    return dict(id=cid, senders=senders, fwds=[dict(mem=c or (1000 if bounded else rnd.choice([1, 1, 2, 5, 1000])), files=0 if c else rnd.choice([0, 10])) for c in caps], steps=steps,
                expect=dict(all=b["all"], dropped=b["dropped"]))

def run_parts(chk, driver, cases, parts=8, **kw):
    """The counter of refused events belongs to the process: a process per part, a case at a time."""
    works = [Work("C05-%d" % i) for i in range(parts)]
    res = {}
    try:
        with ThreadPoolExecutor(parts) as ex:
            for r in ex.map(lambda i: harness(works[i], driver, cases[i::parts], workers=1, timeout=800, **kw) if cases[i::parts] else {}, range(parts)): res.update(r)
    finally:
        for w in works: w.close()
    return res

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    c = dict(Senders={1, 2}, Fwds={1, 2}, CapSets={0, 1, 2}, MaxSends=4 if th else 3, MaxSteps=8)
    inv = ["EachOnce", "InOrder", "Counted", "Apart"]
    jobs = [("Fanout", "forward by forward", dict(constants=c, init="Start", invariants=inv, workers=4, timeout=800)),
            ("Fanout", "sends end whatever receivers do", dict(constants=dict(c, MaxSends=3 if th else 2), spec="Fair", properties=["SendsEnd"], workers=4, timeout=800)),
            ("Fanout", "every transition, bounded", dict(constants=dict(c, Fwds={1, 2, 3}, Senders={1}, MaxSends=4, CapSets={0, 1, 2}, MaxSteps=7), init="Start", next="SNext", view="SView", action_constraints=["Emit"], invariants=inv, workers=1)),
            ("Fanout", "every short history", dict(constants=dict(c, CapSets={0}, MaxSends=4, MaxSteps=6 if th else 5), init="Start", next="SNext", action_constraints=["Emit"], invariants=inv, workers=1)),
            ("Fanout", "sampled histories", dict(constants=dict(c, Senders={1, 2, 3}, Fwds={1, 2, 3, 4}, CapSets={0}, MaxSends=1000, MaxSteps=80), init="Start", next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(150, 1500), depth=81, workers=1)),
            ("Fanout", "sampled histories, bounded", dict(constants=dict(c, Senders={1, 2, 3}, Fwds={1, 2, 3}, CapSets={0, 1, 3, 6}, MaxSends=1000, MaxSteps=30), init="Start", next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(8, 120), depth=31, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[2:], chk.pick([90, 2500, 150, 8], [1500, 20000, 1500, 120])):
        em = [e for e in r.emitted if e["steps"]]
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(case(rnd, b, "f%d" % len(cases)))
    # queue files that fill up: four events of this size to a file
    for i in range(chk.pick(6, 40)):
        mems, files = [rnd.choice([1, 2, 5]) for _ in range(3)], [rnd.choice([0, 1, 2]) for _ in range(3)]
        total = max(m + 4 * (f + 1) for m, f in zip(mems, files)) + rnd.randint(0, 3)
        es = [[1, k] for k in range(1, total + 1)]
        cut = [m + 4 * (f + 1) for m, f in zip(mems, files)]
        cases.append(dict(id="f%d" % len(cases), senders=1, fwds=[dict(mem=m, files=f) for m, f in zip(mems, files)], steps=[dict(a="send", s=1, f=0, e=e, ev=big(rnd, *e, size=280000)) for e in es],
                          expect=dict(all=[es[:x] for x in cut], dropped=sum(total - min(x, total) for x in cut))))
    rnd.shuffle(cases)
    res = run_parts(chk, "fanout", cases)
    chk.compare(cases, res, lambda c: c["expect"])
    # concurrent senders and receivers
    runs = []
    for i in range(chk.pick(20, 120)):
        bound = i % 4 == 3
        ns, nf = rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 3])
        per = rnd.randint(2, 6) if bound else rnd.randint(20, 300)
        runs.append(dict(id="r%d" % i, bound=bound, fwds=[dict(mem=rnd.choice([1, 2, 8, 64]), files=0 if bound else 20, nap=rnd.choice([0, 0, 100, 2000]) if not bound else rnd.choice([0, 5000, 50000])) for _ in range(nf)],
                         sends=[[big(rnd, s, k) if bound else small(rnd, s, k) for k in range(1, per + 1)] for s in range(1, ns + 1)]))
    rr = run_parts(chk, "fanoutrun", runs)
    traces, kept = [], []
    for c in runs:
        r = rr[c["id"]]
        if "skipped" in r: continue
        o = r.get("obs")
        if not isinstance(o, dict) or any(not isinstance(x, list) for f in o["all"] for x in f):
            chk.violation("a concurrent run did not end, or an event came out that nobody sent", {"case": c["id"], "observed": r if not isinstance(o, dict) else [x for f in o["all"] for x in f if not isinstance(x, list)][:3]})
            continue
        traces.append(dict(sends=[len(s) for s in c["sends"]], bound=c["bound"], fwds=o["all"], dropped=o["dropped"]))
        kept.append(c["id"])
    if traces: chk.validate("FanoutTrace", traces, cases=kept, what="concurrent run")
    chk.sample(cases[0]["steps"][:4])
    chk.cov["cases"] = dict(replayed=len(cases), refusals=sum(c["expect"]["dropped"] for c in cases), concurrent=len(runs), refused_concurrently=sum(t["dropped"] for t in traces))
    chk.assumptions.append("hopper: a queue refuses an event only when its memory and its files are full; capacities are realised with events too large for a queue file (exact) or by small ones that always fit")
