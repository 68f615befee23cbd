"""C25: self-telemetry (Internal.tla)."""
import random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import wire

SRC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "internal.rs")).read()
TABLE = [(n, lv == "true") for n, lv in re.findall(r'\("(cernan[^"]+)", &cernan::\S+, (true|false)\)', SRC)]
COUNTERS = [n for n, lv in TABLE if not lv]
GAUGES = [n for n, lv in TABLE if lv]
INV = ["Conserved", "NothingKept", "NeverMore"]
TAGSETS = [[], [["proto", "tcp"]], [["proto", "udp"]], [["a", "1"], ["b", "x y"]], [["ü", ""]]]

def key(name, kind="sum", tags=()): return "%s %s %s" % (name, kind, ",".join(sorted("%s=%s" % tuple(t) for t in tags)))

def traffic(rnd, proto):
    """A session with a source, and what it counts."""
    steps = [dict(a="open", c=1, evs=0)]
    count = {}
    def add(k, n=1): count[k] = count.get(k, 0) + n
    if proto == "statsd":
        steps, evs = [], 0
        for i in range(rnd.randint(1, 5)):
            ok = rnd.random() < .6
            data = ("ok%d:%d|c" % (i, rnd.randint(1, 9)) if ok else rnd.choice(["nonsense", "x:y|z", ":|"])).encode()
            add("cernan.statsd.packet" if ok else "cernan.statsd.bad_packet")
            evs += ok
            steps.append(dict(a="dgram", c=0, hex=data.hex(), evs=evs))
        # datagrams in order: after this one all are counted
        add("cernan.statsd.packet")
        steps.append(dict(a="dgram", c=0, hex=b"end:1|c".hex(), evs=evs + 1))
    elif proto == "graphite":
        evs = 0
        for i in range(rnd.randint(1, 5)):
            ok = rnd.random() < .6
            data = ("g%d %d 1500000000\n" % (i, i) if ok else rnd.choice(["nonsense\n", "a b c\n", "x 1\n"])).encode()
            if ok: add("cernan.graphite.packet"); add("cernan.graphite.telemetry.received"); evs += 1
            else: add("cernan.graphite.bad_packet")
            steps.append(dict(a="send", c=1, hex=data.hex(), settle=True, evs=evs))
        add("cernan.graphite.packet"); add("cernan.graphite.telemetry.received")
        steps.append(dict(a="send", c=1, hex=b"end 1 1500000000\n".hex(), settle=True, evs=evs + 1))
    else:
        evs = 0
        for i in range(rnd.randint(0, 4)):
            data, events = (wire.avro(rnd, "good", "t%d" % i, 1, order=i) if proto == "avro" else wire.native(rnd, "good", "t%d" % i, rnd.randint(1, 3)))
            add("cernan.%s.payload.success" % proto)
            evs += len(events)
            steps.append(dict(a="send", c=1, hex=(wire.struct.pack(">I", len(data)) + data).hex(), settle=True, evs=evs))
        if rnd.random() < .7 or not evs:
            # the connection is closed after a payload that cannot be decoded
            data, _ = wire.avro(rnd, "bad", "t", 0, order=9) if proto == "avro" else wire.native(rnd, "bad", "t", 0)
            if data:
                add("cernan.%s.payload.parse.failure" % proto)
                steps.append(dict(a="send", c=1, hex=(wire.struct.pack(">I", len(data)) + data).hex(), settle=True, evs=evs, closed=[1]))
    steps.append(dict(a="stop", c=0, open=[]))
    return dict(id="s", cfg=dict(src=proto, forwards=1), steps=steps), count

def case(rnd, b, cid, forwards, session=None):
    steps, passes = [], []
    for k, st in enumerate(b["steps"]):
        do, want = [], {}
        def add(key, n): want[key] = want.get(key, 0) + n
        for c, n in st["add"].items():
            if not n: continue
            parts = rnd.randint(1, min(n, 3))
            for i in range(parts): do.append(dict(a="count", name=c, n=n // parts + (n % parts if i == 0 else 0)))
            add(key(c), n)
        for g, v in st["lev"].items():
            if not v: continue
            for _ in range(rnd.randint(0, 2)): do.append(dict(a="count", name=g, n=rnd.randint(1, 9)))
            do.append(dict(a="count", name=g, n=v))
            want[key(g, "set")] = [v]
        for _ in range(st["tag"]):
            name, n, tags = "harness.t%d" % rnd.randint(1, 2), rnd.randint(1, 5), rnd.choice(TAGSETS)
            do.append(dict(a="tagged", name=name, n=n, tags=tags))
            add(key(name, tags=tags), n)
        # order among different counters is free; levels keep theirs
        lv = [x for x in do if x.get("name") in GAUGES]
        ot = [x for x in do if x.get("name") not in GAUGES]
        rnd.shuffle(ot)
        do = lv + ot if rnd.random() < .5 else ot + lv
        if session and k == len(b["steps"]) - 2:
            s, cnt = traffic(rnd, session)
            do.append(dict(a="source", case=s))
            for n, v in cnt.items(): add(key(n), v)
        steps.append(dict(do=do, last=st["last"]))
        passes.append(want)
    return dict(id=cid, forwards=forwards, steps=steps, session=session, expect=dict(passes=passes, ended="ended", same=True, shutdowns=[1] * forwards, end=True))

def spread(p):
    tot = {}
    for x in p:
        for k, v in x.items(): tot[k] = tot[k] + v if k in tot else v
    return tot

def run_parts(chk, cases, parts):
    """Counters belong to the process."""
    works = [Work("C25-%d" % i) for i in range(parts)]
    res = {}
    try:
        with ThreadPoolExecutor(parts) as ex:
            for r in ex.map(lambda i: harness(works[i], "internal", cases[i::parts], workers=1, timeout=800) if cases[i::parts] else {}, range(parts)): res.update(r)
    finally:
        for w in works: w.close()
    return res

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    c = dict(Counters={"c1", "c2"} if th else {"c1"}, Gauges={"g"}, Amounts={1, 2}, MaxCounts=4 if th else 3, MaxPasses=2, MaxSteps=0)
    deep = dict(Counters=set(COUNTERS), Gauges=set(GAUGES), Amounts=Tla("1..100000"), MaxCounts=0, MaxPasses=0)
    jobs = [("Internal", "counting at any moment", dict(constants=c, view="NView", invariants=INV, workers=4, timeout=800)),
            ("Internal", "a stop ends", dict(constants=dict(c, MaxCounts=2, Counters={"c1"}), spec="Fair", properties=["StopEnds"], workers=4, timeout=800))]
    for n in (1, 2, 4):
        jobs.append(("Internal", "histories of %d steps" % n, dict(constants=dict(deep, MaxSteps=n), init="Init", next="RNextSim", invariants=["EmitDeep"], simulate=chk.pick(40, 300), depth=n + 1, workers=1)))
    rs = chk.models(jobs)
    cases, plain = [], []
    for r, n in zip(rs[2:], chk.pick([60, 40, 30], [400, 300, 300])):
        for b in r.emitted[:n]: plain.append(b)
    for b in plain:
        cases.append(case(rnd, b, "i%d" % len(cases), rnd.choice([1, 1, 2, 3])))
    # one counter at a time: no name is mistaken for another
    for i, name in enumerate(COUNTERS + GAUGES):
        v = rnd.randint(1, 1000)
        b = dict(steps=[dict(add={} if name in GAUGES else {name: v}, lev={name: v} if name in GAUGES else {}, tag=0, last=True)])
        cases.append(case(rnd, b, "i%d" % len(cases), 1))
    two = rs[3].emitted
    for i in range(chk.pick(24, 160)):
        cases.append(case(rnd, two[i % len(two)], "i%d" % len(cases), 1, session=["graphite", "statsd", "native", "avro"][i % 4]))
    races = []
    for i in range(chk.pick(16, 60)):
        races.append(dict(id="h%d" % i, forwards=rnd.choice([1, 2]), racing=i % 2 == 0, steps=[dict(do=[dict(a="hammer", threads=rnd.choice([1, 2, 3]))], ms=rnd.choice([300, 1200, 2300]))]))
    rnd.shuffle(cases)
    res = run_parts(chk, cases, 40)
    # what a session counts may fall into the report before or after the marker's: only the sum is certain
    for c in cases:
        r = res[c["id"]]
        if c["session"] and isinstance(r.get("obs"), dict) and "passes" in r["obs"]: r["obs"]["passes"] = spread(r["obs"]["passes"])
    chk.compare(cases, res, lambda c: dict(c["expect"], passes=spread(c["expect"]["passes"])) if c["session"] else c["expect"])
    rr = run_parts(chk, races, 8)
    counted = 0
    for c in races:
        r = rr[c["id"]]
        if "skipped" in r: continue
        o = r.get("obs")
        if not isinstance(o, dict) or "hammered" not in o or o["ended"] != "ended" or not o["same"] or not o["end"] or o["shutdowns"] != [1] * c["forwards"]:
            chk.violation("a source of self-telemetry that is being counted in does not stop as it should", {"case": c["id"], "observed": r})
            continue
        n, t = o["hammered"]
        counted += n * len(COUNTERS)
        for name, left in zip(COUNTERS, o["left"]):
            told = o["total"].get(key(name), 0)
            if told + left != n or (left and not c["racing"]):
                chk.violation("%s: counted %d, reported %d, left %d" % (name, n, told, left), {"case": c["id"], "racing": c["racing"], "observed": r})
                break
        told = o["total"].get(key("harness.hammered"), 0)
        if told > t or (not c["racing"] and told != t):
            chk.violation("tagged: counted %d, reported %d" % (t, told), {"case": c["id"], "racing": c["racing"], "observed": r})
    chk.sample(cases[0])
    chk.cov["cases"] = dict(replayed=len(cases), names=len(COUNTERS) + len(GAUGES), raced=len(races), counted_concurrently=counted)
    chk.assumptions.append("a report begins within the harness's wait, and its parts reach the forwards within 100 ms of the marker's")
