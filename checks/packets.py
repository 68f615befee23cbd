"""C22: the statsd source (StatsdPackets.tla)."""
import random
from vlib import *
import wire
from buckets import NOW

V = lambda sign, q, ok=True: Tla('[sign |-> "%s", q |-> %d, ok |-> %s]' % (sign, q, "TRUE" if ok else "FALSE"))
R = lambda form, f=4, ok=True: Tla('[form |-> "%s", f |-> %d, ok |-> %s]' % (form, f, "TRUE" if ok else "FALSE"))
NAMES = ["m", "tm", "tx", ""]
MASKS = Tla('<<[names |-> {"tm"}, bounds |-> <<2, 10, 64>>], [names |-> {"tm", "tx"}, bounds |-> <<5>>]>>')
REGEX = [["^tm", [2, 10, 64]], ["t[mx]", [5]]]
SPELL = {"m": ["m", "a.b-c_d", "m@x|y", "zü", "с", "n" * 400, "a b", "#"], "tm": ["tm", "tm.q"], "tx": ["tx", "atx9"]}
BADV = ["", "x", "1x", "--1", "1 ", " 1", "1,5", "0x1", "+", "-", ".", "1e", "b:3", "3\r"]
BADR = ["", "x", "0.5|#a:b", "0.5|", " 1", "@1"]
BADT = {"q": ["q", "s", "gg", "G", "C", "mss", " c", "c ", "g|", "c|#tag", "m", "kv"]}

def numeral(rnd, q, sign):
    """A spelling of q/4."""
    x = q / 4
    forms = ["%g" % x, repr(float(x)), "%.3f" % x, "%de-2" % (q * 25), "00%g" % x]
    if q % 4 == 0: forms += ["%d." % (q // 4), "%d" % (q // 4)]
    if q == 0: forms += [".0", "0e9"]
    if q == 2: forms.append(".5")
    return sign + rnd.choice(forms)

RATE = {4: ["1", "1.0", "1e0"], 8: ["0.5", ".5", "5e-1"], 40: ["0.1"], 2: ["2", "2.0"], 16: ["0.25"], 0 - 8: ["-0.5"]}

def line(rnd, l, names):
    sh = l["shape"]
    if sh == "blank": return rnd.choice(["", " "])
    name = names.setdefault(l["name"], rnd.choice(SPELL.get(l["name"], [""])))
    v, t, r = l["val"], l["typ"], l["rate"]
    val = numeral(rnd, v["q"], v["sign"]) if v["ok"] else rnd.choice(BADV)
    typ = rnd.choice(BADT[t]) if t in BADT else t
    rate = "" if r["form"] == "none" else {"pipe": "|@", "bare": "@"}[r["form"]] + (rnd.choice(RATE[r["f"]]) if r["ok"] else rnd.choice(BADR))
    if sh == "nocolon": return rnd.choice([name.replace(":", "") + "|" + typ + rate, "justtext"])
    if sh == "nopipe": return name + ":" + val.replace("|", "") + rnd.choice(["", typ.replace("|", "")])
    if sh == "novalue": return name + ":"
    if sh == "notype": return name + ":" + (val or "1") + "|"
    return name + ":" + val + "|" + typ + rate

def case(rnd, b, cid):
    steps, names, good, bad = [], {}, b["good"] + 1, b["bad"]
    order = []
    texts = []
    out = iter(b["out"])
    events, count = [], 0
    for st in b["steps"]:
        names = {}
        p = st["p"]
        ls = [line(rnd, l, names) for l in p["lines"]]
        if ls and not ls[-1]: ls[-1] = " "       # an empty last line would be no line
        data = "\n".join(ls)
        if p["lines"] and rnd.random() < .3: data += "\n"
        if "\r" not in data and rnd.random() < .1: data = data.replace("\n", "\r\n")
        data = data.encode()
        if not p["text"]:
            data = rnd.choice([b"\xff\xfe:1|c", data + b"\nm:1|c\xc3", b"m\x80:1|c\n" + data])
        # the lines of a packet share the names
        for l in range(st["evs"] - count):
            m = next(out)
            v = m["q"] / 4
            events.append(wire.tel(names[m["name"]], m["kind"], [v], NOW, m["persist"], bounds=m["bounds"]))
        count = st["evs"]
        steps.append(dict(a="dgram", hex=data.hex(), evs=count))
    steps += [dict(a="dgram", hex=b"last:1|c".hex(), evs=count + 1), dict(a="stop", open=[])]
    events += [wire.tel("last", "sum", [1], NOW), dict(k="shutdown")]
    fw = rnd.choice([1, 1, 1, 2])
    return dict(id=cid, cfg=dict(src="statsd", forwards=fw, masks=REGEX), steps=steps, expect=dict(late=[], early=[], ended="ended", back=[], out=[events] * fw), good=good, bad=bad)

def large(rnd, cid):
    """Datagrams up to the largest there are, good, or bad only at their very end."""
    steps, events = [], []
    for size in rnd.sample([16249, 16250, 16251, 30000, 40001, 65000, 65507], 3):
        lines, left = [], size
        while left > 60:
            lines.append("n%d:%d|c" % (len(lines), rnd.randint(0, 9)))
            left -= len(lines[-1]) + 1
        lines.append("x" * (left - 4) + ":1|c")
        data = "\n".join(lines)
        assert len(data) == size
        if rnd.random() < .3: data = data[:-1] + "q"
        else: events += [wire.tel(l[:l.index(":")], "sum", [int(l[l.index(":") + 1])], NOW) for l in lines]
        steps.append(dict(a="dgram", hex=data.encode().hex(), evs=len(events)))
    n = sum(1 for s in steps if s["hex"].endswith("63"))
    steps += [dict(a="dgram", hex=b"last:1|c".hex(), evs=len(events) + 1), dict(a="stop", open=[])]
    events += [wire.tel("last", "sum", [1], NOW), dict(k="shutdown")]
    return dict(id=cid, cfg=dict(src="statsd", forwards=1, masks=REGEX), steps=steps, expect=dict(late=[], early=[], ended="ended", back=[], out=[events]), good=n + 1, bad=3 - n)

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    vals = {V("", 12), V("-", 8), V("+", 20), V("", 0), V("", 2), V("", 0, False)}
    rates = {R("none"), R("pipe", 8), R("bare", 40), R("pipe", 4), R("pipe", 4, False), R("bare", 4, False)}
    S = lambda xs: Tla("{" + ", ".join(tla(x) for x in sorted(xs)) + "}")
    one = dict(Names=S(NAMES), Values=S(vals), Types=S(["g", "c", "ms", "h", "q"]), Rates=S(rates), Shapes=S(["full", "nocolon", "nopipe", "novalue", "notype", "blank"]),
               Masks=MASKS, Packets=1)
    pv, pr = {V("", 12), V("-", 8), V("", 0, False)}, {R("none"), R("pipe", 8)}
    pairs = dict(one, Names=S(["m", "tm"]), Values=S(pv), Types=S(["g", "ms"] if not th else ["g", "c", "ms", "q"]), Rates=S(pr), Shapes=S(["full", "blank"]))
    inv = ["Counted", "Alone", "OnlyGaugesPersist"]
    jobs = [("StatsdPackets", "every single line", dict(constants=dict(one, MaxPackets=1), init="Init", next="NextOne", view="PView", action_constraints=["Emit"], invariants=inv, properties=["WholeOrNothing"], workers=1)),
            ("StatsdPackets", "every pair of lines", dict(constants=dict(pairs, MaxPackets=1), view="PView", action_constraints=["Emit"], invariants=inv, properties=["WholeOrNothing"], workers=1)),
            ("StatsdPackets", "every short sequence of packets", dict(constants=dict(pairs, Names=S(["m"]), Values=S({V("", 12), V("", 0, False)}), Types=S(["g", "c"]), Rates=S({R("none")}), Shapes=S(["full"]), MaxPackets=2),
             action_constraints=["Emit"], invariants=inv, properties=["WholeOrNothing"], workers=1)),
            ("StatsdPackets", "sampled sequences of packets", dict(constants=dict(one, Values=S(vals | {V("-", 1), V("+", 400), V("", 1000000), V("", 6)}),
             Rates=S(rates | {R("pipe", 2), R("bare", 16), R("pipe", 0 - 8)}), Packets=9, MaxPackets=14), next="NextSim", invariants=inv + ["EmitDeep"], simulate=3000 if th else 300, depth=20, seed=chk.seed, workers=1))]
    cases = []
    lim = chk.pick(6000, 60000)
    for r in chk.models(jobs):
        em = r.emitted
        if len(em) > lim: em = rnd.sample(em, lim)
        # several independent packets make one case: they do not affect each other
        k = 8 if em and len(em[0]["steps"]) == 1 else 1
        for i in range(0, len(em), k):
            b = dict(steps=[], out=[], good=0, bad=0)
            for e in em[i:i + k]:
                base = len(b["out"])
                b["steps"] += [dict(s, evs=s["evs"] + base) for s in e["steps"]]
                b["out"] += e["out"]; b["good"] += e["good"]; b["bad"] += e["bad"]
            cases.append(case(rnd, b, "s%d" % len(cases)))
    cases += [large(rnd, "l%d" % i) for i in range(chk.pick(12, 60))]
    rnd.shuffle(cases)
    total = dict(id="totals", cfg=dict(src="totals", cases=len(cases)), steps=[])
    res = harness(chk.work, "source", cases + [total], timeout=800, env={"VH_NOW": str(NOW)})
    chk.compare(cases, res, lambda c: c["expect"])
    chk.sample(dict(cases[0], steps=cases[0]["steps"][:8]))
    if not chk.violations:
        want = [sum(c[k] for c in cases) for k in ("good", "bad")]
        o = res["totals"].get("obs") or {}
        got = [o.get("cernan.statsd.packet"), o.get("cernan.statsd.bad_packet")]
        if got != want: chk.violation("good and bad packets are not counted as the specification counts them", dict(expected=want, observed=got))
        chk.cov["packets_counted"] = dict(good=want[0], bad=want[1])
    chk.assumptions.append("the loopback device loses no datagram")
