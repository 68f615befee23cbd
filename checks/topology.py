"""C06, C27: the whole program (Topology.tla, TopologyTrace.tla)."""
import random
from e2e import *

SAFE = ["OnlyReachable", "OncePerPath", "AllAtEnd", "InOrder"]
PULSE = ["Consecutive", "OnceEach", "OnlyFed", "PulsesThrough"]
NS, NF, NK = 3, 4, 4
PRUNE = float(os.environ.get('PRUNE', .6))

def models(prop, th):
    base = dict(Sources={"s1"}, Filters=["f1"], Sinks={"k1"}, MaxData=2, MaxMem=1, MaxPulses=0, Dedupe=True, Flusher=True)
    if prop == "C06":
        jobs = [("Topology", "two filters", dict(constants=dict(base, Filters=["f1", "f2"], MaxData=2 if th else 1), view="SView", invariants=SAFE, workers=4, timeout=800)),
                ("Topology", "two sources", dict(constants=dict(base, Sources={"s1", "s2"}, MaxData=1), view="SView", invariants=SAFE, workers=4, timeout=800)),
                ("Topology", "the program ends", dict(constants=dict(base, Filters=["f1", "f2"] if th else ["f1"], MaxData=1), spec="Fair", properties=["Exits"], workers=4, timeout=800))]
    else:
        jobs = [("Topology", "pulses", dict(constants=dict(base, Filters=["f1", "f2"], Sinks=set(), MaxData=0, MaxPulses=2), view="SView", invariants=PULSE, workers=4, timeout=800)),
                ("Topology", "pulses that filters repeat", dict(constants=dict(base, MaxData=1, MaxPulses=2, Dedupe=False), view="SView", invariants=PULSE, workers=4, timeout=800))]
    big = dict(base, Sources={"s%d" % i for i in range(1, NS + 1)}, Filters=["f%d" % i for i in range(1, NF + 1)], Sinks={"k%d" % i for i in range(1, NK + 1)}, MaxData=0)
    jobs.append(("Topology", "wirings", dict(constants=big, init="SimInit", next="SimNext", invariants=["Emit"], simulate=1500 if th else 300, depth=2, workers=1)))
    return jobs

def prune(fwd):
    """Without the stages no source feeds."""
    while True:
        fed = {x for v in fwd.values() for x in v}
        gone = [n for n in fwd if n[0] == "f" and n not in fed]
        if not gone: return fwd
        fwd = {n: v for n, v in fwd.items() if n not in gone}

def case(rnd, b, cid, ticks):
    fwd = b["fwd"]
    whole = rnd.random() < PRUNE
    if whole: fwd = prune(fwd)
    fed = {x for v in fwd.values() for x in v}
    kind = {}
    for i in range(1, NS + 1):
        s = "s%d" % i
        kinds = ["native"] if not fwd[s] else ["graphite", "statsd", "native", "native", "internal", "files"]
        if "internal" in kind.values() and "internal" in kinds: kinds.remove("internal")
        kind[s] = rnd.choice(kinds)
    for f in sorted(x for x in fwd if x[0] == "f"): kind[f] = "programmable" if ticks and rnd.random() < .8 else rnd.choice(["programmable", "delay", "flush_boundary", "json_encode"])
    snk = rnd.sample(["console", "native", "wavefront", "prometheus", "null"], NK)
    if ticks and "native" not in snk: snk[0] = "native"
    for i, k in enumerate(snk, 1):
        if "k%d" % i in fed or not whole: kind["k%d" % i] = k
    conns = []
    mode = rnd.choice(["settled", "settled", "busy"])
    for s in sorted(x for x in fwd if x[0] == "s"):
        if kind[s] == "internal": continue
        if kind[s] == "files":   # sources may watch the same file
            old = [x for x in conns if kind[x["srcs"][0]] == "files"]
            if old and mode == "settled" and rnd.random() < .6:   # cut off, they may have read different parts
                old[0]["srcs"].append(s)
            else: conns.append(dict(srcs=[s], what="log", n=rnd.choice([1, 5, 40])))
            continue
        for _ in range(rnd.choice([1, 1, 2])): conns.append(dict(srcs=[s], what={"graphite": "set", "statsd": "sum"}.get(kind[s]) or rnd.choice(["sum", "log"]), n=rnd.choice([1, 5, 40])))
    return dict(id=cid, fwd=fwd, kind=kind, conns=conns, mode=mode, late=mode == "settled" and rnd.random() < .35, ticks=ticks,
                mem=rnd.choice([None, None, 1, 3000]), sig=rnd.choice(["TERM", "INT"]), marks=[f for f in sorted(kind) if kind[f] == "programmable" and rnd.random() < .8 or ticks and kind[f] == "programmable"],
                flush=rnd.choice([0.05, 0.3, 1]), gap=rnd.choice([0, 0, .001, .01]), seed=rnd.getrandbits(32), nap=rnd.choice([0, 0.02, .3]))

def name_of(kind, n):
    if n[0] == "s": return "sources.internal" if kind[n] == "internal" else "sources.%s.%s" % (kind[n], n)
    if n[0] == "f": return "filters.%s.%s" % (kind[n], n)
    return "sinks.%s" % kind[n]

def item(rnd, what, kind, c, n):
    name = "c%d_%d" % (c, n)
    if kind == "files": return (name + "\n").encode()
    if kind == "graphite": return ("%s 1 %d\n" % (name, time.time())).encode()
    if kind == "statsd": return ("%s:1|c" % name).encode()
    ms = wire.field(6 if what == "sum" else 4, 0, wire.varint(int(time.time() * 1000)))
    if what == "sum": return wire.frame(wire.blob(2, wire.blob(1, name) + wire.blob(2, struct.pack("<d", 1)) + wire.field(4, 0, wire.varint(1)) + ms))
    return wire.frame(wire.blob(3, wire.blob(1, "lp") + wire.blob(2, name) + ms))

def play(work, c, exit_secs=40):
    """What the program did: {ended, sinks: {name: …}, conns: [(settled, sent)]}."""
    rnd = random.Random(c["seed"])
    kind, fwd = c["kind"], c["fwd"]
    ports, sections = {}, []
    for n, k in kind.items():
        if k in ("graphite", "native", "wavefront", "prometheus"): ports[n] = port()
        elif k == "statsd": ports[n] = port(socket.SOCK_DGRAM)
    run = Run(work, c["id"], {"flush-interval": c["flush"], **({"max-hopper-in-memory-bytes": c["mem"]} if c["mem"] else {})}, sections)
    try:
        for n, k in kind.items():
            d = {}
            if n[0] in "sf": 
                fw = [name_of(kind, x) for x in fwd[n]]
                rnd.shuffle(fw)
                d["forwards"] = fw
            if k == "files":
                i = next(i for i, x in enumerate(c["conns"]) if n in x["srcs"])
                d["path"] = run.log(i)
            elif n[0] == "s" and k != "internal": d.update({"port": ports[n], "ip" if k == "native" else "host": "127.0.0.1"})
            if k == "programmable":
                run.script(n + ".lua", marking(n, c["ticks"]) if n in c["marks"] else PLAIN)
                d["script"] = n + ".lua"
            if k == "delay": d["tolerance"] = 100000
            if k == "flush_boundary": d["tolerance"] = rnd.choice([0, 1])
            if k in ("native", "wavefront", "prometheus") and n[0] == "k": d.update(port=ports[n], host="127.0.0.1")
            if k in ("console", "wavefront"): d["bin_width"] = 1
            sections.append((name_of(kind, n), d))
        rnd.shuffle(sections)
        servers = {}
        def serve():
            for n, k in kind.items():
                if n[0] == "k" and k in ("native", "wavefront"): servers[n] = Server(ports[n])
        if not c["late"]: serve()
        t0 = time.time()
        run.start()
        if not run.listening([p for n, p in ports.items() if n[0] == "s" and kind[n] != "statsd" or kind[n] == "prometheus"], [p for n, p in ports.items() if kind[n] == "statsd"]):
            return dict(ended="not up: %s %s" % (run.p.poll(), run.stderr()[-300:]))
        socks, sent, done = [], [0] * len(c["conns"]), threading.Event()
        for i, x in enumerate(c["conns"]):
            src = x["srcs"][0]
            if kind[src] == "files":
                if not wait(lambda: len(run.positions(i)) == len(x["srcs"]), 20, .02): return dict(ended="the file is not watched")
                s = run.appender(i)
            elif kind[src] == "statsd":
                s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                s.connect(("127.0.0.1", ports[src]))
            else: s = socket.create_connection(("127.0.0.1", ports[src]), timeout=20)
            socks.append(s)
        def send(i, k):
            x = c["conns"][i]
            k_ = kind[x["srcs"][0]]
            data = item(rnd, x["what"], k_, i + 1, sent[i] + 1)
            sent[i] += 1   # some of it may arrive whatever becomes of the call
            if len(data) > 3 and k_ != "statsd" and k < .3:
                cut = int(k * 3 * len(data))
                socks[i].sendall(data[:cut])
                time.sleep(.0005)
                data = data[cut:]
            socks[i].sendall(data)
        order = [i for i, x in enumerate(c["conns"]) for _ in range(x["n"])]
        rnd.shuffle(order)
        for i in order:
            send(i, rnd.random())
            if c["gap"]: time.sleep(c["gap"])
        def drained():
            if any(kind[x["srcs"][0]] == "files" and set(run.positions(i)) != {run.size(i)} for i, x in enumerate(c["conns"])): return False
            mine = {s.getsockname()[1] for s in socks if isinstance(s, socket.socket)}
            for x in table("tcp"):
                if (x[0] in mine or x[1] in mine) and (x[3] or x[4]): return False
            ps = {p for n, p in ports.items() if kind[n] == "statsd"}
            return not any(x[0] in ps and x[4] for x in table("udp")) if ps else True
        settled = [0] * len(sent)
        if order and not wait(drained, 20): return dict(ended="input is not read")
        settled = list(sent)
        prom = [n for n in kind if kind[n] == "prometheus"]
        exposed = {}
        if prom and c["mode"] == "settled" and not c["late"]:
            n = prom[0]
            want = [i for i, x in enumerate(c["conns"]) if x["what"] != "log" and any(True for p in x_paths(c, x, n))]
            def seen():
                exposed[n] = prometheus(ports[n])
                return all(re.search(rb"\bc%d_%d\b" % (i + 1, k), exposed[n]) for i in want for k in range(1, sent[i] + 1))
            if not wait(seen, 15, .1): pass
            # copies on other paths may come later
            time.sleep(1.3 if any(kind[f] == "flush_boundary" for f in kind) else .3)
            seen()
        busy = None
        if c["mode"] == "busy":
            def go():
                r = random.Random(c["seed"])
                while not done.is_set():
                    i = r.randrange(len(socks))
                    try: send(i, r.random())
                    except OSError: return
                    if sent[i] > 150: time.sleep(.002)
                    if sent[i] > 400: return
            if socks:
                busy = threading.Thread(target=go, daemon=True)
                busy.start()
        time.sleep(c["nap"])
        run.signal(getattr(signal, "SIG" + c["sig"]))
        if c["late"]:
            time.sleep(rnd.choice([0, .2, 1]))
            serve()
        rc = run.exit(exit_secs)
        took = time.time() - t0
        done.set()
        if busy: busy.join(20)
        for s in socks: s.close()
        if rc is None: return dict(ended="still running %d s after the signal" % exit_secs, config=run.config)
        got = {n: s.finish() for n, s in servers.items()}
        return dict(ended="ended" if rc == 0 else "exit %d: %s" % (rc, run.stderr()[-300:]), got=got, stdout=run.stdout(), conns=list(zip(settled, sent)), exposed=exposed, took=took, config=run.config)
    finally:
        run.close()

def c_paths(c, s, k):
    return ([[]] if k in c["fwd"][s] else []) + [[f] + p for f in c["fwd"][s] if f[0] == "f" for p in c_paths(c, f, k)]

def x_paths(c, x, k): return [p for s in x["srcs"] for p in c_paths(c, s, k)]

MODES = {"console": dict(set="bare once", sum="bare each", log="each"), "native": dict(set="each", sum="each", log="each"),
         "wavefront": dict(set="once", sum="each", log="none"), "prometheus": dict(set="bare once", sum="bare each", log="none")}

def record(c, o):
    """The recorded run as the trace specification reads it."""
    kind, conns = c["kind"], c["conns"]
    def lone(x, k, via): return sum(".".join(f for f in p if f in c["marks"]) == via for p in x_paths(c, x, k)) == 1
    alien, sinks, ticks = [], [], {f: {} for f in c["marks"]}
    for n, k in sorted(kind.items()):
        if n[0] != "k" or k == "null": continue
        if k == "prometheus" and n not in o["exposed"]: continue
        count, runs = {}, {}
        def see(name, what, tags, x=1):
            via = tags.get("via", "")
            m = re.match(r"c(\d+)_(\d+)$", name)
            if m and 1 <= int(m.group(1)) <= len(conns) and conns[int(m.group(1)) - 1]["what"] in what:
                i = int(m.group(1)) - 1
                key = (i, int(m.group(2)), via)
                count[key] = 1 if "once" in MODES[k][conns[i]["what"]] else count.get(key, 0) + x
                if k == "native" and lone(conns[i], n, via): runs.setdefault((i, via), []).append(int(m.group(2)))
            elif re.match(r"tick_(f\d)$", name): 
                if k == "native":
                    d = ticks[name[5:]]
                    d[via] = d.get(via, 0) + 1
            elif not name.startswith(("cernan.", "cernan_")): alien.append((n, name, tags))
        if k == "console":
            pts, lines = console(o["stdout"])
            for name, v in pts: see(name, ("set", "sum"), {}, int(v))
            for path, v, tags in lines: see(v if path == "lp" or path.endswith(".log") else path, ("log",), tags)
        elif k == "native":
            pts, lines = native(o["got"][n])
            for name, smp, tags in pts: see(name, ("set", "sum"), tags, int(sum(smp)))
            for path, v, tags in lines: see(v if path == "lp" or path.endswith(".log") else path, ("log",), tags)
        elif k == "wavefront":
            for name, v, tags in wavefront(o["got"][n]): see(name, ("set", "sum"), tags, int(v))
        else:
            body = o["exposed"][n].decode().split("\r\n\r\n", 1)[-1]
            for line in body.split("\n"):
                m = re.match(r"([a-zA-Z_:][\w:]*)(?:\{(.*)\})? (\S+)", line)
                if m and not line.startswith("#"): see(m.group(1), ("set", "sum"), {}, int(float(m.group(3))))   # by name alone
        got = [set() for _ in conns]
        for (i, num, via), x in count.items(): got[i].add(Tla(tla([num, via.split(".") if via else [], x])))
        sinks.append(dict(name=n, mode=[MODES[k][x["what"]] for x in conns], got=got, runs=set(Tla(tla(r)) for r in runs.values())))
    # pulses a filter saw: what it said about them, along any one path
    nat = [n for n in kind if kind[n] == "native" and n[0] == "k"]
    t = {}
    for f in sorted(x for x in kind if x[0] == "f"):
        t[f] = -1
        if c["ticks"] and f in c["marks"] and nat:
            ps = [".".join(g for g in p if g in c["marks"]) for p in c_paths(c, f, nat[0])]
            if ps:
                per = {l: ticks[f].get(l, 0) / ps.count(l) for l in set(ps)}
                if len(set(per.values())) > 1 or set(ticks[f]) - set(ps) or any(v != int(v) for v in per.values()): alien.append(("ticks", f, ticks[f]))
                else: t[f] = int(list(per.values())[0])
    tr = dict(fwd={n: set(v) for n, v in c["fwd"].items()}, marks=set(c["marks"]),
              conns=[dict(srcs=set(x["srcs"]), settled=a, sent=b, block={f for f in kind if kind[f] == "json_encode"} if x["what"] == "log" else set()) for x, (a, b) in zip(conns, o["conns"])],
              ticks=t, most=int(o["took"] * 100) + 2, sinks=sinks, alien=len(alien))
    return tr, alien

def run_all(work, cases, par=24):
    res = {}
    with ThreadPoolExecutor(par) as ex:
        for c, r in zip(cases, ex.map(lambda c: play(work, c), cases)): res[c["id"]] = r
    return res

def timer(chk, rnd):
    """The real timer by itself, into queues of every size and read at every pace."""
    cs = []
    for i in range(chk.pick(8, 30)):
        qs = [dict(mem=rnd.choice([1, 100, 1000, 1 << 20]), wait=rnd.choice([0, 0, 0, 300, 1200]), nap=rnd.choice([0, 0, 1, 25])) for _ in range(rnd.choice([1, 2, 3, 6]))]
        cs.append(dict(id="q%d" % i, queues=qs, ms=chk.pick(2500, 8000)))
    res = harness(chk.work, "timer", cs, workers=len(cs), timeout=120)
    traces, kept = [], []
    for c in cs:
        o = res[c["id"]].get("obs", res[c["id"]])
        if "got" not in o:
            chk.violation("the timer failed", {"case": c, "observed": res[c["id"]]})
            continue
        if any(len(g) < 10 for g, q in zip(o["got"], c["queues"]) if q["wait"] <= 300): chk.violation("no pulses", {"case": c, "observed": o})
        for g, q in zip(o["got"], c["queues"]):
            traces.append(dict(got=g, most=o["ms"] // 10 + 1))
            kept.append(dict(queue=q, got=g[:50]))
    if traces: chk.validate("PulseTrace", traces, cases=kept, what="stream of pulses")

def run(chk):
    rnd = random.Random(chk.seed)
    th = chk.thorough
    rs = chk.models(models(chk.prop, th))
    em = rs[-1].emitted
    uniq = list({json.dumps(e, sort_keys=True): e for e in em}.values())
    rnd.shuffle(uniq)
    cases = [case(rnd, b, "t%d" % i, chk.prop == "C27" or rnd.random() < .1) for i, b in enumerate(uniq[:chk.pick(120, 1200)])]
    res = run_all(chk.work, cases)
    traces, kept = [], []
    for c in cases:
        o = res[c["id"]]
        if o["ended"] != "ended":
            chk.violation("the program did not end as it should: %s" % o["ended"], {"case": c, "observed": o["ended"], "config": o.get("config")})
            continue
        try: tr, alien = record(c, o)
        except (ValueError, KeyError, IndexError) as e:
            chk.violation("what a sink sent cannot be read: %r" % e, {"case": c})
            continue
        traces.append(tr)
        kept.append(dict(c, alien=alien[:3], config=o["config"]))
    if traces: chk.validate("TopologyTrace", traces, cases=kept, what="run of the program")
    if chk.prop == "C27": timer(chk, rnd)
    chk.sample({"wiring": cases[0]["fwd"], "kinds": cases[0]["kind"]})
    chk.cov["cases"] = dict(runs=len(cases), items=sum(b for t in traces for b in [x["sent"] for x in t["conns"]]), late=sum(c["late"] for c in cases), busy=sum(c["mode"] == "busy" for c in cases), pulses=sum(x for t in traces for x in t["ticks"].values() if x > 0))
