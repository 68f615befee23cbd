"""C04: the run loop of a filter (FilterLoop.tla)."""
import random
from vlib import *

INV = ["EndLastOnce", "EndAfterAll", "AllProduced", "OnePerFailure"]

def confs(l):
    return Tla("{" + ", ".join(tla(dict(nu=a, nf=b)) for a, b in l) + "}")

def kinds(l):
    return Tla("{" + ", ".join(tla(x) for x in l) + "}")

def run(chk):
    th = chk.thorough
    full = [(0, False, 0), (1, False, 0), (2, False, 0), (0, True, 0), (2, True, 0)]
    hold = [(1, False, 1), (0, True, 0)]
    base = dict(AnyUp=True, Eager=False, DeepLen=0)
    jobs = [("FilterLoop", "exhaustive", dict(constants=dict(base, Confs=confs([(1, 1), (2, 2), (3, 1)]), Kinds=kinds(hold), MaxEv=3 if th else 2),
             spec="Spec", invariants=INV, properties=["Drains"], workers=4))]
    g = dict(base, Eager=True)
    jobs.append(("FilterLoop", "every history", dict(constants=dict(g, AnyUp=False, Confs=confs([(1, 1), (2, 2), (3, 3)]), Kinds=kinds(full), MaxEv=4 if th else 3),
                 invariants=INV + ["EmitAll"], workers=1)))
    jobs.append(("FilterLoop", "sampled histories", dict(constants=dict(g, Confs=confs([(4, 2), (2, 5), (6, 1), (1, 3)]), Kinds=kinds(full), MaxEv=24),
                 invariants=INV + ["EmitAll"], simulate=2000 if th else 200, depth=120, seed=chk.seed, workers=1)))
    # what is kept for the end of the stream: the flush-boundary filter, whose tolerance is never met here
    jobs.append(("FilterLoop", "every history, holding", dict(constants=dict(g, Confs=confs([(1, 2), (2, 1), (3, 2)]), Kinds=kinds([(1, False, 0), (0, False, 1)]), MaxEv=4 if th else 3),
                 invariants=INV + ["EmitAll"], workers=1)))
    res = chk.models(jobs)
    cases, held = [], []
    for b in res.pop().emitted:
        held.append(dict(id="k%d" % len(held), cfg=dict(b["cfg"], filter="flush_boundary", names=True, tolerance=1000), expect=b["out"], steps=[timed(st) for st in b["steps"]]))
    for r in res[1:]:
        for b in r.emitted:
            cfg = dict(b["cfg"], salt=len(cases))
            cases.append(dict(id="h%d" % len(cases), cfg=cfg, steps=b["steps"], expect=b["out"]))
    random.Random(chk.seed).shuffle(cases)
    random.Random(chk.seed).shuffle(held)
    cases = cases[:chk.pick(6000, 40000)] + held[:chk.pick(2500, 20000)]
    out = harness(chk.work, "filterrun", cases, timeout=900)
    chk.compare(cases, out, lambda c: {"out": c["expect"]}, norm=pulses)
    chk.sample(cases[0])
    threads(chk)
    chk.assumptions.append("the probe filter follows the Filter trait; hopper delivers in order per sender")

def timed(st):
    """An event for the flush-boundary filter: one with a time is held."""
    if st["t"] == "end": return dict(t="end")
    if st["hold"]: return dict(t="event", ev=dict(k="tel", name=st["id"] + ".held1", v=1, ts=5))
    return dict(t="event", ev=dict(k="raw", bytes=st["id"] + ".1"))

def pulses(o):
    return o

def threads(chk):
    rnd = random.Random(chk.seed * 31 + 4)
    cases = []
    for i in range(chk.pick(30, 150)):
        nu, nf = rnd.choice((1, 2, 3)), rnd.choice((1, 2, 3))
        ups = []
        for u in range(1, nu + 1):
            steps = []
            for k in range(rnd.randint(0, 8)):
                st = dict(t="event", id="e%d" % (u * 100 + k), emit=rnd.randint(0, 2), fail=rnd.random() < 0.25, hold=0)
                if rnd.random() < 0.3:
                    st["nap"] = rnd.randint(0, 2000)
                steps.append(st)
            steps.append(dict(t="end", id="u%d" % u, emit=0, fail=False, hold=0))
            ups.append(steps)
        cases.append(dict(id="t%d" % i, cfg=dict(nu=nu, nf=nf, salt=i), ups=ups))
    res = harness(chk.work, "filterrun", cases, timeout=300)
    traces, kept = [], []
    for c in cases:
        r = res[c["id"]]
        if "skipped" in r: continue
        if "obs" not in r or "died" in r["obs"]:
            chk.violation("the filter stage did not finish a concurrent run", {"case": c, "observed": r})
            continue
        ups = [[{k: v for k, v in s.items() if k != "nap"} for s in u] for u in c["ups"]]
        traces.append(dict(cfg=dict(nu=c["cfg"]["nu"], nf=c["cfg"]["nf"]), ups=ups, outs=r["obs"]["out"]))
        kept.append(c)
    chk.validate("FilterTrace", traces, cases=kept, what="concurrent run",
                 constants=dict(Confs=Tla("{Traces[i].cfg : i \\in 1..Len(Traces)}"), Kinds=Tla("{}"), MaxEv=0, AnyUp=True, Eager=True, DeepLen=0))
