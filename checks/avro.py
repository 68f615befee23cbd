"""C20: what a publish to the Avro source says (AvroPublish.tla)."""
import random
from vlib import *
import wire

def long(n):
    z = (n << 1) ^ (n >> 63)
    return wire.varint(z)

def s(b): return long(len(b)) + b
SYNC = bytes(range(16, 32))
SCHEMAS = [b'"int"', b'{"type":"array","items":"string"}']

def container(entries, blocks=None, sync=SYNC, body=b"", magic=b"Obj\x01"):
    r = magic
    for b in blocks or [entries]:
        if isinstance(b, tuple):                       # with its size
            data = b"".join(s(k) + s(v) for k, v in b[0])
            r += long(-len(b[0])) + long(len(data)) + data
        else: r += long(len(b)) + b"".join(s(k) + s(v) for k, v in b)
    return r + b"\0" + sync + body

SC, CO = b"avro.schema", b"avro.codec"
BOXES = [container([(SC, SCHEMAS[0])]), container([(SC, SCHEMAS[0]), (CO, b"null")], body=b"\x02\x02\x04" + SYNC), container([(CO, b"deflate"), (SC, SCHEMAS[1])]),
         container(None, blocks=[[(SC, SCHEMAS[0])], [(CO, b"snappy")]]), container(None, blocks=[([(SC, SCHEMAS[0]), (b"x", b"")],)]),
         container([(SC, SCHEMAS[0]), (CO, b"bzip2")]), container([(CO, b"null")]), container([]), container([(SC, SCHEMAS[0])], sync=SYNC[:15]),
         container([(SC, SCHEMAS[0])], magic=b"Obj\x02"), b"", b"Obj\x01", b"Obj\x01" + b"\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"Obj\x01\x02\xfe\xff\xff\xff\xff\xff\xff\xff\x7f" + b"a" * 40,
         b"Obj\x01\x02" + s(SC) + b"\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01" + b"b" * 30, b"Obj\x01\x02\x01", b"Obj\x01" + b"\xff" * 9 + b"\x01\x02"]
METAS = [(), ((b"k", b"v"),), ((b"", b""), (b"\xff", b"\0\x80"), (b"key", b"value")), ((b"k", b"v"), (b"k", b"w"))]
B = lambda b: list(b)

def run(chk):
    th = chk.thorough
    rnd = random.Random(chk.seed)
    W = lambda xs: Tla("{" + ", ".join(tla(x) for x in xs) + "}")
    vers = [[0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 2], [0, 0, 0, 3], [1, 0, 0, 0], [255, 255, 255, 255], [0, 1, 0, 1]]
    ords = [[0] * 8, [0, 0, 0, 0, 0, 0, 1, 2], [127] + [255] * 7, [255] * 8]
    metas = [[[B(k), B(v)] for k, v in m] for m in METAS]
    base = dict(Schemas=W([B(x) for x in SCHEMAS]), Puts={0, 1, 2, 3, 127, 128, 255})
    kw = dict(action_constraints=["Emit"], invariants=["Faithful", "WellFormed"], workers=1)
    jobs = [("AvroPublish", "every version, order, metadata and container", dict(constants=dict(base, Versions=W(vers), Orders=W(ords), Metas=W(metas), Containers=W([B(b) for b in BOXES]), Mutate={"none", "more"}), **kw)),
            ("AvroPublish", "every cut and change of one byte", dict(constants=dict(base, Versions=W(vers[1:3]), Orders=W(ords[1:2]), Metas=W(metas[:3]), Containers=W([B(b) for b in BOXES[:5 if th else 2]]),
             Puts={0, 1, 2, 3, 127, 128, 255} if th else {0, 2, 128, 255}, Mutate={"cut", "put", "drop", "twice"}), **kw)),
            ("AvroPublish", "every cut", dict(constants=dict(base, Versions=W(vers[1:5]), Orders=W(ords[1:2]), Metas=W(metas), Containers=W([B(b) for b in BOXES[2:5]]), Mutate={"cut"}), **kw))]
    if th: jobs.append(("AvroPublish", "every change of one byte, other versions", dict(constants=dict(base, Versions=W([vers[0], vers[5]]), Orders=W(ords[3:]), Metas=W(metas[3:]), Containers=W([B(b) for b in BOXES[1:4]]), Mutate={"put", "drop", "twice"}), **kw)))
    pubs = []
    for r in chk.models(jobs):
        em = [e for e in r.emitted if e["v"]["k"] != "?"]
        if len(em) > chk.pick(4500, 60000): em = rnd.sample(em, chk.pick(4500, 60000))
        pubs += em
    rnd.shuffle(pubs)
    # real files, whole and cut, and larger ones
    for n, data in sorted(wire.blobs().items()):
        for m in METAS:
            h = wire.avro_header(2, 0, 1, 77) + wire.kvs(m)
            pubs.append(dict(s=h + data, v=dict(k="forwarded", order=B((77).to_bytes(8, "big")), meta=m, box=data)))
            cut = rnd.randint(0, 200)
            pubs.append(dict(s=h + data[:cut], v=dict(k="refused")))
        big = data + bytes(rnd.getrandbits(8) for _ in range(300000))
        pubs.append(dict(s=wire.avro_header(1, 0, 1, 78) + big, v=dict(k="forwarded", order=B((78).to_bytes(8, "big")), meta=[], box=big)))
    rnd.shuffle(pubs)
    cases, i = [], 0
    while i < len(pubs):
        steps, out = [], []
        for c, p in enumerate(pubs[i:i + 10], 1):
            data = wire.frame(bytes(p["s"]))
            steps.append(dict(a="open", c=c))
            st = dict(a="send", c=c, hex=data.hex())
            if p["v"]["k"] == "refused": st["closed"] = [c]
            else: out.append(wire.raw(int.from_bytes(bytes(p["v"]["order"]), "big"), bytes(p["v"]["box"]), {bytes(k): bytes(v) for k, v in p["v"]["meta"]} or None))
            st["evs"] = len(out)
            p["at"] = (len(cases), c)
            steps.append(st)
        steps.append(dict(a="stop", open=[c for c, p in enumerate(pubs[i:i + 10], 1) if p["v"]["k"] != "refused"]))
        cases.append(dict(id="p%d" % len(cases), cfg=dict(src="avro", forwards=1), steps=steps,
                          expect=dict(late=[], early=[], ended="ended", back=[], out=[out + [dict(k="shutdown")]])))
        i += 10
    res = harness(chk.work, "source", cases, timeout=800)
    chk.compare(cases, res, lambda c: c["expect"])
    chk.cov["publishes"] = dict(forwarded=sum(p["v"]["k"] == "forwarded" for p in pubs), refused=sum(p["v"]["k"] == "refused" for p in pubs))
    chk.sample(cases[0]["steps"][:4])
    chk.assumptions.append("a valid container is one whose header can be read; the blocks behind it are not looked into")
