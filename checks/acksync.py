"""C18: synchronous publishes (AckSync.tla) and the bag of acknowledgements (AckBag.tla)."""
import random
from vlib import *
import wire

def case(rnd, b, cid):
    conns = {c: script for c, script in enumerate(b["script"], 1)}
    body = {(c, i): rnd.choice([b"", b"x", b"blob %d %d" % (c, i), bytes(rnd.getrandbits(8) for _ in range(rnd.choice([10, 300, 5000])))]) for c in conns for i in range(1, len(conns[c]) + 1)}
    ids = {k: rnd.choice([0, 1, (1 << 64) - 1, rnd.getrandbits(64), k[1], 7]) for k in body}
    # the same order and id may be used by several publishes
    order = {k: k[0] << 8 | k[1] for k in body}
    steps, sent, left = [], {}, set()
    box = sorted(wire.blobs().items())[0][1]
    for st in b["steps"]:
        c, a = st["c"], st["a"]
        if a == "send":
            data = b""
            for i in range(sent.get(c, 0) + 1, sent.get(c, 0) + st["n"] + 1):
                v = rnd.choice([1, 2])
                data += wire.frame(wire.avro_header(v, int(conns[c][i - 1]) | rnd.choice([0, 2, 1 << 31]), ids[c, i], order[c, i]) + (wire.kvs([]) if v == 2 else b"") + box + body[c, i])
            sent[c] = sent.get(c, 0) + st["n"]
            x = dict(a="send", c=c, hex=data.hex())
        elif a == "resolve": x = dict(a="resolve", n=st["n"])
        elif a == "stop": x = dict(a="stop", open=[])
        else: x = dict(a=a, c=c)
        if a == "gone": left.add(c)
        if a == "stop" and rnd.random() < .3: steps.append(dict(a="nap", us=280000))
        if a != "stop":
            x["evs"] = st["fwd"]
            x["back"] = x["most"] = [[k, 8 * len(v)] for k, v in enumerate(st["ans"], 1) if k not in left and v]
            x["most"] = [[k, 8 * len(v)] for k, v in enumerate(st["ans"], 1) if k not in left]
        steps.append(x)
    out = [wire.raw(order[m[0], m[1]], box + body[m[0], m[1]], None) for m in b["fwd"]] + [dict(k="shutdown")]
    back = [[c, "".join("%016x" % ids[c, i] for i in v)] for c, v in enumerate(b["ans"], 1) if v and c not in left]
    return dict(id=cid, cfg=dict(src="avro", forwards=1), steps=steps, gone=sorted(left), expect=dict(late=[], early=[], ended="ended", back=back, out=[out]))

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    C = lambda n: Tla("1..%d" % n)
    macro = dict(init="Init", next="SNext", view="AView", action_constraints=["Emit"], invariants=["AnsweredInOrder", "AnsweredWhenResolved", "InOrder", "OnlyOneOpen"], workers=1)
    jobs = [("AckSync", "everybody at their own pace", dict(constants=dict(Conns=C(2), MaxPubs=3 if th else 2, MaxSteps=0, Twice=False), init="Init", next="Next",
             invariants=["AnsweredInOrder", "AnsweredWhenResolved", "InOrder", "OnlyOneOpen"], workers=4)),
            ("AckSync", "progress and ending", dict(constants=dict(Conns=C(2), MaxPubs=2, MaxSteps=0, Twice=False), spec="Fair", properties=["NeverAskedNeverBlocked", "ResolvedIsAnswered", "Ends"], workers=4)),
            ("AckSync", "every transition, two connections", dict(constants=dict(Conns=C(2), MaxPubs=2, MaxSteps=8 if th else 7, Twice=False), **macro)),
            ("AckSync", "every transition, one connection", dict(constants=dict(Conns=C(1), MaxPubs=4 if th else 3, MaxSteps=9, Twice=True), **macro)),
            ("AckSync", "sampled histories", dict(constants=dict(Conns=C(4), MaxPubs=6, MaxSteps=30, Twice=True), init="InitSim", next="SNextSim", invariants=["AnsweredInOrder", "AnsweredWhenResolved", "OnlyOneOpen", "EmitDeep"], simulate=chk.pick(150, 2500), depth=31, workers=1)),
            ("AckBag", "every history", dict(constants=dict(Keys=C(2), MaxAcks=2, MaxSteps=6 if th else 4), view="View" if not th else None, action_constraints=["Emit"], invariants=["TypeOK", "NoVainWait"], properties=["Others"], workers=1)),
            ("AckBag", "sampled histories", dict(constants=dict(Keys=C(3), MaxAcks=3, MaxSteps=40), init="Init", next="NextSim", invariants=["TypeOK", "NoVainWait", "EmitDeep"], simulate=chk.pick(200, 2000), depth=41, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[2:5], chk.pick([600, 300, 150], [6000, 4000, 2500])):
        em = [e for e in r.emitted if e["steps"]]
        if len(em) > n: em = rnd.sample(em, n)
        for b in em:
            if b["steps"][-1]["a"] != "stop": b["steps"].append(dict(a="stop", c=0, n=0, fwd=len(b["fwd"]), ans=b["ans"]))
            cases.append(case(rnd, b, "s%d" % len(cases)))
    rnd.shuffle(cases)
    res = harness(chk.work, "source", cases, workers=64, timeout=800)
    def seen(r):
        o = r.get("obs")
        if isinstance(o, dict) and "back" in o: o = dict(o, back=sorted(o["back"]))
        return o
    gone = {c["id"]: c["gone"] for c in cases}
    for k, r in res.items():      # what was answered to a client that left is not looked at
        if isinstance(r.get("obs"), dict) and "back" in r["obs"]: r["obs"]["back"] = [x for x in r["obs"]["back"] if x[0] not in gone[k]]
    chk.compare(cases, res, lambda c: c["expect"], observe=seen)
    chk.sample(cases[0]["steps"][:4])
    bags = [dict(id="b%d" % i, cfg=dict(src="ackbag"), steps=b["steps"], expect=dict(slow=False, steps=[dict(bag=s["bag"], wait=s["wait"]) for s in b["steps"]]))
            for i, b in enumerate(b for r in rs[5:] for b in r.emitted if b["steps"])]
    chk.compare(bags, harness(chk.work, "source", bags, timeout=400), lambda c: c["expect"])
