"""C01, C02, C03: the consuming loop of a sink (SinkLoop.tla)."""
import random
from vlib import *

SAFETY = {
    "C01": ["InOrderExactlyOnce", "StopsLastAndOnce", "StopsAfterAll"],
    "C02": ["NeverOverfull", "InOrderExactlyOnce"],
    "C03": ["PulseOnce", "PulseDue", "PulseExact"],
}
PROPS = {"C01": ["Drains"], "C02": ["BackPressure", "Drains"], "C03": []}

def conf(nu, cap, stub, interval):
    return dict(nu=nu, cap=cap, stub=stub, interval=interval)

def models(prop, th):
    """constants of the exhaustive runs"""
    base = dict(AnyUp=True, Eager=False, DeepLen=0)
    if prop == "C01":
        r = [dict(Confs=[conf(2, 2, 0, 2)], MaxPulse=2, MaxEv=3, MaxPulses=1),
             dict(Confs=[conf(3, 9, 0, -1)], MaxPulse=1, MaxEv=2, MaxPulses=0)]
        if th: r += [dict(Confs=[conf(3, 2, 1, 1)], MaxPulse=2, MaxEv=3, MaxPulses=1)]
    elif prop == "C02":
        r = [dict(Confs=[conf(1, 1, 2, 2)], MaxPulse=2, MaxEv=4, MaxPulses=2),
             dict(Confs=[conf(2, 2, 1, 1)], MaxPulse=2, MaxEv=3, MaxPulses=1)]
        if th: r += [dict(Confs=[conf(2, 2, 2, 2)], MaxPulse=3, MaxEv=4, MaxPulses=2)]
    else:
        r = [dict(Confs=[conf(1, 3, 0, i) for i in (-1, 0, 1, 2)], MaxPulse=4, MaxEv=1, MaxPulses=4)]
        if th: r += [dict(Confs=[conf(1, 2, 1, i) for i in (2, 3)], MaxPulse=6, MaxEv=2, MaxPulses=5)]
    return [dict(base, **x) for x in r]

def gens(prop, th):
    """constants of the runs whose transitions are replayed"""
    base = dict(AnyUp=False, Eager=True, DeepLen=0)
    if prop == "C01":
        r = [dict(Confs=[conf(nu, cap, stub, 2) for nu in (1, 2, 3, 4) for cap, stub in ((9, 0), (2, 1))],
                  MaxPulse=2, MaxEv=3, MaxPulses=2)]
        if th: r += [dict(Confs=[conf(nu, 3, 1, 1) for nu in (2, 5)], MaxPulse=3, MaxEv=5, MaxPulses=3)]
    elif prop == "C02":
        r = [dict(Confs=[conf(nu, cap, stub, iv) for nu in (1, 2) for cap in (1, 2, 3)
                         for stub, iv in ((0, 2), (1, -1), (3, 2))], MaxPulse=2, MaxEv=5, MaxPulses=2)]
        if th: r += [dict(Confs=[conf(2, cap, 2, 1) for cap in (1, 2, 4)], MaxPulse=3, MaxEv=7, MaxPulses=3)]
    else:
        r = [dict(Confs=[conf(2, cap, 0, iv) for iv in (-1, 0, 1, 2, 3) for cap in (2, 9)],
                  MaxPulse=6, MaxEv=2, MaxPulses=5)]
        if th: r += [dict(Confs=[conf(2, 2, 1, iv) for iv in (0, 1, 2, 4, 5)], MaxPulse=9, MaxEv=3, MaxPulses=7)]
    return [dict(base, **x) for x in r]

DEEP = dict(AnyUp=True, Eager=True, MaxPulse=40, MaxEv=30, MaxPulses=20, DeepLen=40,
            Confs=[conf(3, 4, 1, 5), conf(5, 3, 0, 2), conf(2, 1, 2, 0), conf(1, 7, 1, 100), conf(4, 9, 0, -1)])

def fix(k):
    return dict(k, Confs=Tla("{" + ", ".join(tla(c) for c in k["Confs"]) + "}"))

def run(chk):
    prop, th = chk.prop, chk.thorough
    jobs = [("SinkLoop", "exhaustive %s" % k, dict(constants=fix(k), spec="Spec", invariants=SAFETY[prop],
             properties=PROPS[prop], workers=4, timeout=1200)) for k in models(prop, th)]
    nm = len(jobs)
    jobs += [("SinkLoop", "generation %s" % k, dict(constants=fix(k), view="View", action_constraints=["Emit"], workers=1))
             for k in gens(prop, th)]
    jobs += [("SinkLoop", "simulation", dict(constants=fix(DEEP), invariants=["EmitDeep"] + SAFETY[prop],
              simulate=3000 if th else 240, depth=160, seed=chk.seed, workers=1))]
    cases = []
    for r in chk.models(jobs)[nm:]:
        for b in r.emitted:
            cases.append(dict(id="g%d" % len(cases), cfg=b["cfg"], steps=b["steps"], expect=b["calls"],
                              calls=len(b["calls"]), salt=len(cases)))
    cap = 40000 if th else 9000
    if len(cases) > cap:
        random.Random(chk.seed).shuffle(cases)
        cases = cases[:cap]
    res = harness(chk.work, "sinkloop", cases, timeout=1500 if th else 500)
    chk.compare(cases, res, lambda c: c["expect"])
    for c in cases[:1] + cases[-1:]:
        chk.sample(dict(cfg=c["cfg"], steps=c["steps"], calls=c["expect"]))
    threads(chk)
    chk.assumptions.append("the queue (hopper) is first-in first-out per sender; the probe sink's capacity model is the specification's")

def threads(chk):
    """code -> spec: concurrent upstreams, recorded, validated by TLC."""
    rnd = random.Random(chk.seed * 7919 + int(chk.prop[1:]))
    cases = []
    for i in range(200 if chk.thorough else 40):
        nu = rnd.choice((1, 2, 3))
        cfg = conf(nu, rnd.choice((1, 2, 3, 20)), rnd.choice((0, 1, 2)), rnd.choice((-1, 0, 1, 2, 3)))
        ups = []
        for u in range(1, nu + 1):
            steps = []
            pulse = 0
            for k in range(rnd.randint(1, 12)):
                if rnd.random() < 0.35:
                    pulse += rnd.choice((0, 1, 1, 2))
                    steps.append(dict(a="pulse", i=max(1, pulse)))
                else:
                    steps.append(dict(a="event", id="e%d.%d" % (u, k)))
                if rnd.random() < 0.3:
                    steps[-1]["nap"] = rnd.randint(0, 3000)
            steps.append(dict(a="end", u=u))
            ups.append(steps)
        cases.append(dict(id="t%d" % i, cfg=cfg, ups=ups, disk=rnd.random() < 0.4))
    res = harness(chk.work, "sinkthreads", cases, timeout=300)
    def item(s):
        if s["a"] == "event": return dict(t="event", id=s["id"])
        if s["a"] == "pulse": return dict(t="pulse", i=s["i"])
        return dict(t="end", u=s["u"])
    traces, kept = [], []
    for c in cases:
        r = res[c["id"]]
        if "skipped" in r: continue
        if "obs" not in r or "hang" in r:
            chk.violation("the sink did not finish a concurrent run", {"case": c, "observed": r})
            continue
        traces.append(dict(cfg=c["cfg"], ups=[[item(s) for s in u] for u in c["ups"]], calls=r["obs"]))
        kept.append(c)
    chk.validate("SinkTrace", traces, cases=kept, what="concurrent run",
                 constants=dict(Confs=Tla("{Traces[i].cfg : i \\in 1..Len(Traces)}"), MaxPulse=1, MaxEv=0, MaxPulses=0, AnyUp=True, Eager=True, DeepLen=0))
