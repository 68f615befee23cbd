"""C17: publishing to Kafka (Kafka.tla)."""
import random
from vlib import *

CODES = dict(ok=["ok"], perm=["10", "17", "18", "21", "29", "42", "1", "43"], trans=["2", "7", "13", "14", "19", "20", "41"], inner=["3", "5", "6", "15", "16"], drop=["drop"], mute=["mute"])
META = [None, [], [["6964", "31"]], [["", "61"]], [["6b", ""]], [["61", "00ff"], ["c3bc", "0a"]], [["ff", "31"]], [["6100", "31"], ["62", "32"]], [["6b", "78" * 200]]]

def scripts(n, kinds):
    """All sequences of up to n transient replies with an end."""
    res, cur = [], [()]
    for _ in range(n + 1):
        res += [c + (e,) for c in cur for e in ("ok", "perm")]
        cur = [c + (k,) for c in cur for k in kinds]
    return {s for s in res}

def case(rnd, log, cid, unit=None):
    """Sizes in the model are units of so many bytes."""
    unit = unit or rnd.choice([1, 5, 100, 3000])
    steps, n, orders = [], 0, set()
    for st in log:
        if st["a"] != "deliver":
            steps.append(dict(a=st["a"], closed=st["closed"]))
            continue
        n += 1
        while True:
            o = rnd.choice([n, rnd.getrandbits(64), 2**64 - n, 2**63 + n, 15 + n])
            if o not in orders: break
        orders.add(o)
        size = st["size"] * unit
        b = bytes(rnd.choice([0, 10, 255, 65, 195]) for _ in range(min(size, 40)))
        steps.append(dict(a="deliver", id=n, order=str(o), hex=b.hex(), size=size, meta=rnd.choice(META), conn=rnd.random() < .4, kinds=st["rep"],
                          replies=[("~" if rnd.random() < .1 else "") + rnd.choice(CODES[k]) for k in st["rep"]], closed=st["closed"]))
    return dict(id=cid, steps=steps, limit=LIMIT * unit)

LIMIT = 3

def usable(k):
    """What can be the name of a header: text without a zero."""
    b = bytes.fromhex(k)
    try: b.decode()
    except UnicodeDecodeError: return False
    return 0 not in b

def expect(c):
    steps, events, pend, acks = [], {}, [], {}
    drops = any("drop" in st.get("kinds", []) for st in c["steps"])
    n = dict(ok=0, perm=0, trans=0)
    for st in c["steps"]:
        if st["a"] == "deliver":
            if st["conn"]: acks[str(st["id"])] = 0
            pend.append(st)
        else:
            for p in pend:
                k = p["kinds"]
                end = next(i for i, x in enumerate(k) if x in ("ok", "perm"))
                n[k[end]] += 1
                n["trans"] += k[:end].count("trans")
                if p["conn"]: acks[str(p["id"])] = 1
                b = bytes.fromhex(p["hex"]) + b"." * (p["size"] - len(p["hex"]) // 2)
                hs = sorted((bytes.fromhex(a), v) for a, v in (p["meta"] or []) if usable(a))
                events[str(p["id"])] = dict(replies=p["replies"][:end + 1], same=True, rec=dict(topic="top.ic", value=b.hex() if len(b) <= 4096 else "%d bytes" % len(b), headers=[[a.hex(), v] for a, v in hs]))
            pend = []
        steps.append(dict(valve="gone" if st["a"] == "stop" else "closed" if st["closed"] else "open", acks=dict(acks)))
    return dict(steps=steps, events=events, counted=[n["ok"], None if drops else n["trans"], n["perm"], 0], odd=[], slow=False)

def observe(r, c):
    o = r.get("obs")
    if o is None: return None
    if any("drop" in st.get("kinds", []) for st in c["steps"]): o["counted"][1] = None
    done = set()
    pend = []
    for st in c["steps"]:
        if st["a"] == "deliver": pend.append(st)
        else: done, pend = done | {str(p["id"]) for p in pend}, []
    o["events"] = {k: v for k, v in o["events"].items() if k in done}   # those not flushed may still be under way
    return o

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    short = scripts(1, ["trans", "inner", "drop"])
    base = dict(MaxEvents=2, Limit=LIMIT, Sizes={1, 3}, Scripts=short, MaxSteps=5)
    inv = ["Sound", "Settled", "Counted"]
    deep = scripts(3, ["trans", "inner"]) | {("trans",) * 7 + ("ok",), ("drop", "ok"), ("trans", "drop", "ok"), ("drop", "drop", "inner", "ok")}
    jobs = [("Kafka", "events, replies and rounds", dict(constants=dict(base, MaxEvents=3 if th else 2, Scripts=scripts(2, ["trans", "inner", "drop"]) if not th else short), invariants=inv, properties=["Final", "Reopens"], workers=4, timeout=800)),
            ("Kafka", "flushes end", dict(constants=base, spec="Fair", properties=["FlushesEnd"], workers=4, timeout=800)),
            ("Kafka", "every short history", dict(constants=dict(base, Sizes={1, 2}), next="SNext", action_constraints=["Emit"], workers=1)),
            ("Kafka", "sampled histories", dict(constants=dict(base, MaxEvents=1000, Sizes={0, 1}, Scripts=deep, MaxSteps=25), next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(60, 600), depth=26, workers=1)),
            ("Kafka", "many in flight", dict(constants=dict(base, Limit=60, MaxEvents=1000, Sizes={1}, Scripts=deep | {("ok",)}, MaxSteps=70), next="SNextSim", invariants=["EmitDeep"], simulate=chk.pick(20, 200), depth=71, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[2:], chk.pick([300, 60, 20], [3000, 600, 200])):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(case(rnd, b, "k%d" % len(cases)))
    for c in cases[-len(rs[4].emitted):]: c["limit"] *= 20
    rnd.shuffle(cases)
    res = harness_apart("C17", "kafka", cases, parts=24)
    for c in cases:
        if "obs" in res[c["id"]]: res[c["id"]]["obs"] = observe(res[c["id"]], c)
    chk.compare(cases, res, expect)
