"""C19, C21, C23: listening sources (Listener.tla)."""
import random
from vlib import *
import wire

INV = ["Decoded", "ChunkingIrrelevant", "OnlyDescribed", "MarkerOnceLast", "NothingAfter"]
def U(*us): return Tla("{" + ", ".join('[k |-> "%s", body |-> %d, ev |-> %d]' % u for u in us) + "}")
FRAMES = [("good", 2, 1), ("good", 3, 2), ("bad", 1, 0), ("empty", 0, 0), ("huge", 1, 0)]
LINES = [("good", 2, 1), ("good", 3, 2), ("bad", 2, 0), ("blank", 1, 0)]

class Cells:
    """The bytes of a connection's units, and the events of each."""
    def __init__(self, rnd, proto, c, script):
        self.cells, self.events, self.at = [], {}, 0
        self.lines = proto == "graphite"
        for u, unit in enumerate(script, 1):
            for _ in range(10000):
                cells, ev = self.unit(rnd, proto, c, u, unit)
                if cells is not None: break
            else: raise ToolError("no bytes for %s" % unit)
            self.cells += cells
            for i, e in enumerate(ev, 1): self.events[(c, u, i)] = e

    def unit(self, rnd, proto, c, u, unit):
        k, body, ev = unit["k"], unit["body"], unit["ev"]
        tag = "c%du%d" % (c, u)
        if proto == "graphite":
            data, events = wire.graphite(rnd, k, tag, ev)
            ps = wire.pieces(rnd, data, body)
            if ps is None or len(events) != ev: return None, None
            if k == "good" and any(wire.parse_graphite(b"".join(ps[:i])) is not None for i in range(1, len(ps))): return None, None
            if k != "good" and any(wire.parse_graphite(b"".join(ps[:i])) is not None for i in range(1, len(ps) + 1)): return None, None
            return ps + [b"\n"], events
        if k == "huge":
            n = rnd.choice([1048577, 1048577, 1 << 31, (1 << 32) - 1, 1 << 24])
            return [bytes([x]) for x in wire.struct.pack(">I", n)] + [bytes([rnd.getrandbits(8)]) * rnd.randint(1, 9) for _ in range(body)], []
        if k == "bad" and body == 0: k = "empty"
        data, events = wire.avro(rnd, k, tag, ev, order=c * 1000 + u) if proto == "avro" else wire.native(rnd, k, tag, ev)
        ps = wire.pieces(rnd, data, body)
        if ps is None or len(events) != ev: return None, None
        return [bytes([x]) for x in wire.struct.pack(">I", len(data))] + ps, events

    def take(self, n):
        r = b"".join(self.cells[self.at:self.at + n])
        self.at += n
        return r

def case(rnd, b, cid, proto, forwards):
    conns = {c: Cells(rnd, proto, c, s) for c, s in enumerate(b["script"], 1)}
    steps, was = [], [False] * len(conns)
    for st in b["steps"]:
        s = dict(a=st["a"], c=st["c"])
        if st["a"] == "send":
            s.update(hex=conns[st["c"]].take(st["n"]).hex(), settle=True)
        if st["a"] == "stop":
            s["open"] = [i + 1 for i, x in enumerate(was) if x]
        else:
            s["evs"] = st["evs"]
            ended = [i + 1 for i, (x, y) in enumerate(zip(was, st["alive"])) if x and not y]
            if ended: s["closed"] = ended
        was = st["alive"]
        steps.append(s)
    out = []
    for o in b["out"]:
        if o["c"]: out.append(conns[o["c"]].events[(o["c"], o["u"], o["e"])])
    out.append(dict(k="shutdown"))
    return dict(id=cid, cfg=dict(src=proto, forwards=forwards), steps=steps, expect=dict(late=[], early=[], ended="ended", back=[], out=[out] * forwards),
                counts=b["counts"])

def models(prop, th):
    fr, li = U(*FRAMES), U(*LINES)
    safe = dict(invariants=INV, properties=["Apart"])
    live = dict(spec="Fair", invariants=INV, properties=["Apart", "Ends", "Served"])
    fine = dict(MaxSteps=0, Cuts={0})
    F = dict(Mode="frame"); L = dict(Mode="line")
    jobs = []
    if prop in ("C19", "C21"):
        jobs += [("Listener", "frames, every segmentation and reading", dict(constants=dict(F, **fine, Conns={1}, Units=fr, MaxUnits=3 if th else 2), view="LView", **safe)),
                 ("Listener", "two connections of frames", dict(constants=dict(F, **fine, Conns={1, 2}, Units=U(("good", 1, 1), ("bad", 1, 0), ("huge", 1, 0)), MaxUnits=1), view="LView", **safe))]
    if prop in ("C23", "C21"):
        jobs += [("Listener", "lines, every segmentation and reading", dict(constants=dict(L, **fine, Conns={1}, Units=li, MaxUnits=3 if th else 2), view="LView", **safe)),
                 ("Listener", "two connections of lines", dict(constants=dict(L, **fine, Conns={1, 2}, Units=U(("good", 1, 1), ("bad", 1, 0)), MaxUnits=1), view="LView", **safe))]
    if prop == "C21":
        jobs += [("Listener", "every stop comes to an end", dict(constants=dict(L, **fine, Conns={1, 2}, Units=U(("good", 1, 1), ("bad", 1, 0)), MaxUnits=1), **live)),
                 ("Listener", "every stop comes to an end, frames", dict(constants=dict(F, **fine, Conns={1}, Units=U(("good", 1, 1), ("huge", 1, 0)), MaxUnits=2), **live))]
    return jobs

def gens(prop, th):
    """(protocols, what, kwargs)"""
    e = dict(next="SNext", view="LView", action_constraints=["Emit"], invariants=INV, properties=["Apart"], workers=1)
    s = dict(init="InitSim", next="SNextSim", invariants=["EmitDeep"] + INV, workers=1)
    cuts = {0, 1, 2, 3, 4, 5, 7, 9}
    r = []
    if prop in ("C19", "C21"):
        many = FRAMES + [("good", 1, 1), ("good", 1, 3), ("bad", 3, 0), ("good", 2, 0), ("good", 5, 1)]
        r += [(["native"], "every segmentation of frames", dict(constants=dict(Mode="frame", Conns={1}, Units=U(*FRAMES), MaxUnits=2, MaxSteps=5 if th else 4, Cuts={0}), **e)),
              (["avro"], "every segmentation of publishes", dict(constants=dict(Mode="frame", Conns={1}, Units=U(("good", 2, 1), ("bad", 1, 0), ("bad", 0, 0), ("huge", 0, 0)), MaxUnits=2, MaxSteps=5 if th else 4, Cuts={0}), **e)),
              (["native"], "two connections", dict(constants=dict(Mode="frame", Conns={1, 2}, Units=U(("good", 1, 1), ("bad", 1, 0)), MaxUnits=1, MaxSteps=5, Cuts={0, 2, 4}), **e)),
              (["native"], "sampled frames", dict(constants=dict(Mode="frame", Conns={1, 2, 3}, Units=U(*(many + [("good", 2, 1)])), MaxUnits=8, MaxSteps=60, Cuts=cuts), simulate=1500 if th else 120, depth=70, seed=chk_seed[0], **s)),
              (["avro"], "sampled publishes", dict(constants=dict(Mode="frame", Conns={1, 2, 3}, Units=U(("good", 1, 1), ("good", 2, 1), ("good", 4, 1), ("bad", 1, 0), ("huge", 1, 0)), MaxUnits=6, MaxSteps=50, Cuts=cuts), simulate=1000 if th else 80, depth=60, seed=chk_seed[0], **s))]
    if prop in ("C23", "C21"):
        r += [(["graphite"], "every segmentation of lines", dict(constants=dict(Mode="line", Conns={1}, Units=U(*LINES), MaxUnits=2, MaxSteps=6 if th else 5, Cuts={0}), **e)),
              (["graphite"], "two connections", dict(constants=dict(Mode="line", Conns={1, 2}, Units=U(("good", 1, 1), ("bad", 1, 0)), MaxUnits=1, MaxSteps=6, Cuts={0, 1}), **e)),
              (["graphite"], "sampled lines", dict(constants=dict(Mode="line", Conns={1, 2, 3}, Units=U(*(LINES + [("good", 1, 1), ("good", 1, 1), ("good", 5, 3), ("bad", 1, 0), ("bad", 3, 0)])), MaxUnits=10, MaxSteps=60, Cuts={0, 1, 2, 3, 5, 8}),
               simulate=2500 if th else 250, depth=70, seed=chk_seed[0], **s))]
    if prop == "C21":
        many = {i for i in range(1, 31)}
        r += [(["native"], "many connections", dict(constants=dict(Mode="frame", Conns=many, Units=U(("good", 2, 1), ("bad", 1, 0), ("huge", 1, 0), ("good", 1, 2)), MaxUnits=3, MaxSteps=120, Cuts={0, 1, 4, 6}), simulate=200 if th else 12, depth=130, seed=chk_seed[0], **s)),
              (["graphite"], "many connections", dict(constants=dict(Mode="line", Conns=many, Units=U(("good", 2, 1), ("bad", 1, 0)), MaxUnits=3, MaxSteps=120, Cuts={0, 1, 2}), simulate=200 if th else 12, depth=130, seed=chk_seed[0], **s))]
    return r

chk_seed = [1]

def bigs(rnd, proto):
    """The largest frame that is allowed, and the smallest that is not."""
    res = []
    for size in (1048576, 1048575, 65536, 65535):
        ev = wire.tel("big", "sum", [3], 5)
        p = wire.blob(1, "big") + wire.field(2, 1, wire.struct.pack("<d", 3)) + wire.field(4, 0, b"\1") + wire.field(6, 0, wire.varint(5000))
        p = wire.blob(2, p)
        pad = size - len(p) - 1
        n = next(n for n in range(pad, 0, -1) if n + len(wire.varint(n)) == pad)
        p += wire.blob(15, b"z" * n)
        assert len(p) == size
        f = wire.frame(p)
        small, sev = wire.native(rnd, "good", "after", 1)
        data = f + wire.frame(small)
        cut = rnd.choice([len(data), 5, 3, 70000 % len(data), len(f), len(f) + 2])
        steps = [dict(a="open", c=1), dict(a="send", c=1, hex=data[:cut].hex(), settle=True), dict(a="send", c=1, hex=data[cut:].hex(), evs=2), dict(a="stop", open=[1])]
        res.append(dict(id="big%d" % size, cfg=dict(src="native", forwards=1), steps=steps,
                        expect=dict(late=[], early=[], ended="ended", back=[], out=[[ev] + sev + [dict(k="shutdown")]])))
    return res

def run(chk):
    prop, th = chk.prop, chk.thorough
    chk_seed[0] = chk.seed
    rnd = random.Random(chk.seed * 31 + int(prop[1:]))
    ms, gs = models(prop, th), gens(prop, th)
    rs = chk.models(ms + [("Listener", w, kw) for _, w, kw in gs])[len(ms):]
    cases = []
    lim = chk.pick(700 if prop == "C21" else 1500, 12000)
    for (protos, what, _), r in zip(gs, rs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        for b in em:
            for p in protos:
                cases.append(case(rnd, b, "%s%d" % (p[0], len(cases)), p, 2 if rnd.random() < .2 else 1))
    if prop != "C23": cases += bigs(rnd, "native")
    rnd.shuffle(cases)
    env = None
    total = None
    if prop == "C23":
        total = dict(id="totals", cfg=dict(src="totals", cases=len(cases)), steps=[])
    chk.sample(dict(cases[0], steps=cases[0]["steps"][:8]))
    t0 = time.time()
    res = harness(chk.work, "source", cases + ([total] if total else []), timeout=800)
    chk.compare(cases, res, lambda c: c["expect"])
    if total and not chk.violations:
        want = [sum(x[i] for c in cases for x in c["counts"]) for i in (0, 1)]
        o = res["totals"].get("obs") or {}
        got = [o.get("cernan.graphite.packet"), o.get("cernan.graphite.bad_packet")]
        if got != want:
            chk.violation("good and bad lines are not counted as the specification counts them", dict(expected=want, observed=got))
        chk.cov["lines_counted"] = dict(good=want[0], bad=want[1])
    races(chk, rnd)

def races(chk, rnd):
    """Clients that do not wait, and a stop in the middle: recorded, and validated by TLC."""
    for proto in {"C19": ["native", "avro"], "C23": ["graphite"], "C21": ["native", "graphite", "avro"]}[chk.prop]:
        lines = proto == "graphite"
        units = [dict(k=k, body=b, ev=e) for k, b, e in (LINES if lines else FRAMES) if proto != "avro" or e < 2 and k != "empty"]
        n, cases = 6, []
        for i in range(chk.pick(60, 600)):
            m = rnd.choice([1, 2, 3, n])
            scripts = [[rnd.choice(units[:2] if rnd.random() < .7 else units) for _ in range(rnd.randint(1, 12))] for _ in range(n)]
            conns = {c: Cells(rnd, proto, c, s) for c, s in enumerate(scripts, 1)}
            st, full, steps = ["idle"] * n, [False] * n, []
            for _ in range(rnd.randint(2, 80)):
                c = rnd.randint(1, m)
                k = conns[c]
                if st[c - 1] == "idle":
                    steps.append(dict(a="open", c=c)); st[c - 1] = "open"
                elif st[c - 1] == "open":
                    if k.at < len(k.cells) and rnd.random() < .93:
                        x = min(len(k.cells) - k.at, rnd.choice([1, 2, 3, 5, 8, 30]))
                        steps.append(dict(a="send", c=c, hex=k.take(x).hex()))
                    elif rnd.random() < .5:
                        how = rnd.choice(["half", "half", "gone", "reset"])
                        s = dict(a=how, c=c); st[c - 1] = how
                        if how != "reset" and rnd.random() < .4: s["closed"] = [c]; full[c - 1] = True
                        steps.append(s)
                if rnd.random() < .1: steps.append(dict(a="nap", us=rnd.choice([50, 200, 1000])))
            steps.append(dict(a="stop", open=[]))
            cases.append(dict(id="r%d" % i, cfg=dict(src=proto, forwards=1), steps=steps, conns=conns, scripts=scripts, st=st, full=full))
        res = harness(chk.work, "source", [{k: v for k, v in c.items() if k in ("id", "cfg", "steps")} for c in cases], timeout=400)
        traces, kept = [], []
        for c in cases:
            r = res[c["id"]]
            o = r.get("obs")
            show = dict(cfg=c["cfg"], steps=c["steps"], scripts=c["scripts"])
            if o is None or o["ended"] != "ended" or o["late"] or o["back"]:
                if "skipped" not in r: chk.violation("the source did not end its connections or itself", dict(case=show, observed=r))
                continue
            known = {wire.canon(e): k for x in c["conns"].values() for k, e in x.events.items()}
            out, strange = [], None
            for e in o["out"][0]:
                k = (0, 0, 0) if e == dict(k="shutdown") else known.get(wire.canon(e))
                if k is None: strange = e
                else: out.append(dict(zip("cue", k)))
            if strange is not None:
                chk.violation("an event was forwarded that nobody sent", dict(case=show, event=strange))
                continue
            traces.append(dict(script=c["scripts"], sent=[x.at for x in c["conns"].values()], st=c["st"], full=c["full"], out=out))
            kept.append(show)
        chk.validate("ListenerTrace", traces, cases=kept, what="racing run",
                     constants=dict(Conns=Tla("1..%d" % n), Mode="line" if lines else "frame", Units=Tla("{}"), MaxUnits=1, MaxSteps=0, Cuts={0}))
