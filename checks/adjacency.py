"""C07: the book of edges and what start-up does with it (Wiring.tla, Topology.tla)."""
import random
from topology import *

def case(rnd, b, cid):
    name = {i: n for i, n in enumerate(rnd.choice([["a", "b", "c", "d", "e", "f"], ["sources.internal", "filters.delay.x", "sinks.null", "sinks.console", "", "sources.native.\u00fc"],
                                                    ["x", "X", "x ", "xx", "x.x", "x\n"]]), 1)}
    steps, res = [], []
    for s in b["steps"]:
        steps.append(dict(a=s["a"], n=name[s["n"]], ts=[name[t] for t in s["ts"]], m=s["m"], w=s["w"]))
        r = s["res"]
        if s["a"] in ("filter", "nodes"): r = sorted((name[x] for x in r), key=lambda x: x.encode())
        elif s["a"] == "pop": r = sorted(([name[t], m] for t, m in r["to"]), key=lambda x: x[0].encode()) if r["here"] else None
        elif s["a"] == "meta":
            n = dict(enumerate(r, 1)) if isinstance(r, list) else {int(k): v for k, v in r.items()}
            r = [m for m in sorted(n) for _ in range(n[m])]
        elif s["a"] in ("edge", "edges"): r = []
        res.append(r)
    all_ = sorted(([name[x["n"]], sorted(([name[t], m] for t, m in x["to"]), key=lambda x: x[0].encode())] for x in b["all"]), key=lambda x: x[0].encode())
    return dict(id=cid, dflt=rnd.random() < .5, steps=steps, expect=dict(res=res, all=all_))

def refusals(chk, rnd, wirings):
    """Start-ups: with one forward that leads nowhere the program must leave before anything is accepted; without it must stay."""
    def one(j):
        b, bad, seed = j
        r = random.Random(seed)
        fwd = b["fwd"]
        c = topology_case(r, fwd, "s%d" % seed)
        kind = dict(c["kind"])
        sections, ports = [], {}
        for n, k in kind.items():
            if k in ("graphite", "native", "wavefront", "prometheus", "avro"): ports[n] = port()
            elif k == "statsd": ports[n] = port(socket.SOCK_DGRAM)
        run = Run(chk.work, c["id"], {}, sections)
        try:
            for n, k in kind.items():
                d = {}
                if n[0] in "sf":
                    fw = [name_of(kind, x) for x in fwd[n] if x in kind]
                    if bad and n == bad[0]: fw.insert(r.randrange(len(fw) + 1), name_of(kind, bad[1][1:]) if bad[1][:1] == "@" else bad[1])
                    d["forwards"] = fw
                if k == "files": d["path"] = run.log(0)
                elif n[0] == "s" and k != "internal": d.update({"port": ports[n], "ip" if k == "native" else "host": "127.0.0.1"})
                if k == "programmable":
                    run.script(n + ".lua", PLAIN)
                    d["script"] = n + ".lua"
                if k in ("delay", "flush_boundary"): d["tolerance"] = 1
                if k in ("native", "wavefront", "prometheus") and n[0] == "k": d.update(port=ports[n], host="127.0.0.1")
                sections.append((name_of(kind, n), d))
            r.shuffle(sections)
            run.start()
            tcp = [p for n, p in ports.items() if (n[0] == "s" or kind[n] == "prometheus") and kind[n] != "statsd"]
            udp = [p for n, p in ports.items() if kind[n] == "statsd"]
            if not bad:
                if not run.listening(tcp, udp): return "a sound configuration is not run: %s %s" % (run.p.poll(), run.stderr()[-200:]), run.config
                time.sleep(.1)
                return None if run.p.poll() is None else "a sound configuration ends with %s" % run.p.poll(), run.config
            seen = set()
            def over():
                seen.update(x[0] for x in table("tcp") if x[2] == "0A" and x[0] in tcp)
                if udp: seen.update(x[0] for x in table("udp") if x[0] in udp)
                return run.p.poll() is not None
            if not wait(over, 20, .002): return "a configuration with a forward to nowhere is run: %s => %s" % bad, run.config
            if run.p.poll() == 0: return "a configuration with a forward to nowhere ends as a success", run.config
            if seen: return "inputs were open in spite of a forward to nowhere", run.config
            return None, run.config
        finally: run.close()
    jobs = []
    for b in wirings:
        fwd = b["fwd"]
        feeders = sorted(fwd)
        jobs.append((b, None, rnd.getrandbits(30)))
        n = rnd.choice(feeders)
        to = rnd.choice(["sinks.nowhere", "filters.delay.nowhere", "sinks.kafka.x", "sinks.null ", "", "sources.native.none", "@s1", "@s2", "@s3"])
        jobs.append((b, (n, to), rnd.getrandbits(30)))
    with ThreadPoolExecutor(24) as ex:
        for j, (why, config) in zip(jobs, ex.map(one, jobs)):
            if why: chk.violation(why, {"bad": j[1], "seed": j[2], "config": config})
    return len(jobs)

def topology_case(r, fwd, cid):
    kind = {}
    for i in range(1, NS + 1):
        s = "s%d" % i
        kinds = ["native"] if not fwd[s] else ["graphite", "statsd", "native", "internal", "files", "avro"]
        kinds = [k for k in kinds if k not in ("internal", "files") or k not in kind.values()]
        kind[s] = r.choice(kinds)
    for f in sorted(x for x in fwd if x[0] == "f"): kind[f] = r.choice(["programmable", "delay", "flush_boundary", "json_encode"])
    snk = r.sample(["console", "native", "wavefront", "prometheus", "null"], NK)
    for i, k in enumerate(snk, 1): kind["k%d" % i] = k
    return dict(id=cid, kind=kind)

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    big = dict(Sources={"s%d" % i for i in range(1, NS + 1)}, Filters=["f%d" % i for i in range(1, NF + 1)], Sinks={"k%d" % i for i in range(1, NK + 1)}, MaxData=0, MaxMem=1, MaxPulses=0, Dedupe=True, Flusher=True)
    jobs = [("Wiring", "every transition", dict(constants=dict(Nodes={1, 2, 3} if th else {1, 2}, Metas={1, 2}, MaxSteps=8, MaxEdges=2), view="View", action_constraints=["Emit"], invariants=["AsDeclared"], workers=1)),
            ("Wiring", "every short history", dict(constants=dict(Nodes={1, 2}, Metas={1}, MaxSteps=4 if th else 3, MaxEdges=1), action_constraints=["Emit"], invariants=["AsDeclared"], workers=1)),
            ("Wiring", "sampled histories", dict(constants=dict(Nodes=set(range(1, 7)), Metas={1, 2, 3, 4}, MaxSteps=30, MaxEdges=4), init="Init", next="NextSim", invariants=["EmitDeep", "AsDeclared"], simulate=chk.pick(800, 8000), depth=31, workers=1)),
            ("Topology", "wirings", dict(constants=big, init="SimInit", next="SimNext", invariants=["Emit"], simulate=1200 if th else 200, depth=2, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[:3], chk.pick([6000, 6000, 800], [60000, 60000, 8000])):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(case(rnd, b, "a%d" % len(cases)))
    res = harness(chk.work, "adjacency", cases, workers=8, timeout=600)
    chk.compare(cases, res, lambda c: c["expect"])
    uniq = list({json.dumps(e, sort_keys=True): e for e in rs[3].emitted}.values())
    rnd.shuffle(uniq)
    n = refusals(chk, rnd, uniq[:chk.pick(50, 400)])
    chk.sample(cases[0]["steps"][:5])
    chk.cov["cases"] = dict(histories=len(cases), startups=n)
