"""C24: following files (FileTail.tla, FileTailTrace.tla)."""
import random
from vlib import *

FILL = ["abc ", "  \t", "ü✓", "\u2028x", "\"{}\\", "0"]

def fill(rnd, n):
    b, s = rnd.choice(FILL).encode(), b""
    while len(s) + len(b) <= n: s += b
    s += b"." * (n - len(s))
    # nothing is cut off the end of a line
    if s and s[-1] < 128 and rnd.random() < .4: s = s[:-1] + rnd.choice([b"\r", b" ", b"\t", b"\0"])
    return s

def case(rnd, b, cid, S=None):
    """Bytes for the pieces of a behaviour: every piece S bytes."""
    S = S or rnd.choice([8, 8, 16, 64, 1024, 4096])   # a write within a page is seen as a whole
    paths = sorted(b["init"])
    steps = [dict(st) for st in b["steps"]]
    if not steps or steps[-1]["a"] != "settle": steps.append(dict(a="settle", p="", k="", n=0))
    text = {}
    # characters that are cut in two by the end of an append
    cut, files, settled = set(), {}, {}
    tr = any(st["a"] == "trunc" for st in steps)
    for st in steps:
        p = st["p"]
        if st["a"] in ("create", "replace"): files[p], settled[p] = None, False
        elif st["a"] == "settle": settled = {q: True for q in settled}
        elif st["a"] in ("away", "del"): files[p] = None
        elif st["a"] == "append":
            last = files.get(p)
            if last and last["k"] == "more" and st["k"] in ("more", "end") and rnd.random() < .4 and not tr: cut.add((last["n"], st["n"]))
            files[p] = st if settled.get(p) else None
    head, tail = {y for _, y in cut}, {x for x, _ in cut}
    for st in steps:
        if st["a"] not in ("append", "old"): continue
        k, n = st["k"], st["n"]
        if k == "blank": d = b"\n" * S
        else:
            d = (b"\xbc" if n in head else b"") + b"%05d" % n
            room = S - len(d) - (1 if k in ("end", "bad") else 0) - (1 if n in tail else 0)
            d += b"\xff" + fill(rnd, room - 1) if k == "bad" else fill(rnd, room)
            d += (b"\xc3" if n in tail else b"") + (b"\n" if k in ("end", "bad") else b"")
            text[d.rstrip(b"\n").hex()] = n
        assert len(d) == S
        st["hex"] = d.hex()
    for st in steps:
        if st["a"] == "trunc": st["bytes"] = st["n"] * S
    # some steps are taken while the source is about to look at a path or to open it
    hold = rnd.choice([0, .1, .3])
    left = 0
    for st in steps:
        if st["a"] == "settle" or tr: left = 0
        elif left > 0: st["held"], left = True, left - 1
        elif rnd.random() < hold: st["at"], left = rnd.choice(["stat", "open"]), rnd.choice([0, 1, 1, 2, 3, 6])
    most, cur = 0, 0
    for st in steps:
        cur = 0 if st["a"] == "settle" else cur + 1
        most = max(most, cur)
    text[(b"i" * (S - 1)).hex()] = 0
    init = {p: None if b["init"][p] < 0 else (b"\n".rjust(S, b"i") * b["init"][p]).hex() for p in paths}
    return dict(id=cid, size=S, text=text, init=b["init"], paths=[dict(name=p, init=init[p], link=rnd.random() < .3) for p in paths], steps=steps,
                max_read=rnd.choice([1, 10, 2048, 2048]), rounds=most + 10, noise=rnd.random() < .3)

def busy(rnd, n):
    """A stream of steps that does not wait."""
    at = {p: rnd.choice([-1, 0, 1]) for p in "abc"[:rnd.randint(1, 3)]}
    init, old = dict(at), {p: False for p in at}
    steps = []
    pace = rnd.choice([0, 50, 400, 3000])
    roll = rnd.choice([.03, .1, .3])
    for i in range(n):
        p = rnd.choice(sorted(at))
        r = rnd.random()
        if at[p] < 0: a, at[p] = "create", 0
        elif r < roll: a = rnd.choice(["away", "away", "del", "replace"])
        elif r < roll * 1.5 and old[p]: a = "old"
        else: a = "append"
        if a in ("away", "del"): at[p] = -1
        if a in ("away", "del", "replace"): old[p] = True
        st = dict(a=a, p=p, k=rnd.choice(["end", "end", "end", "more", "more", "blank", "bad"]) if a in ("append", "old") else "", n=i + 1, us=rnd.choice([0, rnd.randint(0, pace)]))
        steps.append(st)
    return dict(init=init, steps=steps)

def ids(c, line):
    """The pieces a line is made of; nothing if nobody wrote it."""
    n, r = 2 * c["size"], []
    for i in range(0, len(line), n):
        d = c["text"].get(line[i:i + n])
        if d is None: return None
        r.append(d)
    return r

def traces(chk, cases, res):
    out, kept = [], []
    for c in cases:
        r = res[c["id"]]
        o = r.get("obs")
        if o is None or o["stuck"] or o["odd"] or not o["end"] or o["extra"]:
            chk.violation("the file source did something it should not", dict(case=c, got=r))
            continue
        for pl in c["paths"]:
            p = pl["name"]
            segs = [[ids(c, l) for l in s.get(p, [])] for s in o["segs"]]
            if any(l is None for s in segs for l in s):
                chk.violation("a line nobody wrote", dict(case=c, path=p, got=o["segs"]))
                break
            st = [dict(a="settle", k="", n=0)] + [dict(a=x["a"], k=x["k"], n=x["n"]) for x in c["steps"] if x["p"] in ("", p)]
            out.append(dict(init=c["init"][p], steps=st, segs=segs))
            kept.append(dict(c, path=p))
    return out, kept

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    K = {"more", "end", "blank", "bad"}
    inv = ["Undivided", "Once", "InOrder", "TypeOK"]
    one = dict(Paths={"a"}, MaxPieces=3, MaxFiles=3, MaxSteps=11 if th else 9, Kinds={"more", "end"}, Truncs=set())
    jobs = [("FileTail", "one path", dict(constants=one, init="FInit", next="FNext", view="SView", invariants=inv, properties=["Complete"], workers=4, timeout=800)),
            ("FileTail", "every transition", dict(constants=dict(one, MaxSteps=6 if th else 5, Kinds=K, MaxPieces=2, Truncs={0, 1}), init="FInit", next="FNext", view="IView", action_constraints=["Emit"], invariants=["TypeOK"], workers=1)),
            ("FileTail", "every transition, no truncation", dict(constants=dict(one, MaxSteps=7 if th else 6), init="FInit", next="FNext", view="IView", action_constraints=["Emit"], invariants=inv, properties=["Complete"], workers=1)),
            ("FileTail", "sampled histories", dict(constants=dict(one, Paths={"a", "b", "c"}, MaxPieces=30, MaxFiles=12, MaxSteps=60, Kinds=K, Truncs=set()), init="FInit", next="FNextSim", invariants=inv + ["EmitDeep"], simulate=chk.pick(60, 800), depth=61, workers=1)),
            ("FileTail", "sampled histories, truncating", dict(constants=dict(one, Paths={"a", "b", "c"}, MaxPieces=30, MaxFiles=12, MaxSteps=60, Kinds=K, Truncs={0}), init="FInit", next="FNextSim", invariants=["TypeOK", "EmitDeep"], simulate=chk.pick(60, 800), depth=61, workers=1))]
    rs = chk.models(jobs)
    cases = []
    for r, n in zip(rs[1:], chk.pick([400, 500, 60, 60], [4000, 6000, 800, 800])):
        em = r.emitted
        if len(em) > n: em = rnd.sample(em, n)
        for b in em: cases.append(case(rnd, b, "t%d" % len(cases)))
    for i in range(chk.pick(60, 600)): cases.append(case(rnd, busy(rnd, rnd.choice([20, 60, 150])), "t%d" % len(cases), S=rnd.choice([8, 8, 64, 4096])))
    rnd.shuffle(cases)
    res = harness(chk.work, "filetail", cases, workers=8, timeout=800)
    tr, kept = traces(chk, cases, res)
    for i in range(0, len(tr), 1500): chk.validate("FileTailTrace", tr[i:i + 1500], cases=kept[i:i + 1500], what="run over a path")
    chk.cov["steps_taken_at_a_chosen_moment"] = sum(r.get("obs", {}).get("caught", 0) for r in res.values())
