"""Bytes of the protocols the listening sources speak, and the events they describe."""
import math, os, random, re, struct
from vlib import *

# ---- values as the harness reports them ----
def num(x):
    if isinstance(x, float):
        if math.isnan(x): return "nan"
        if math.isinf(x): return "inf" if x > 0 else "-inf"
    return x

def canon(x):
    """Equal events, equal texts."""
    def c(x):
        if isinstance(x, dict): return {k: c(v) for k, v in x.items()}
        if isinstance(x, list): return [c(v) for v in x]
        if isinstance(x, float) and x == int(x) and abs(x) < 9e15: return int(x)
        return x
    return json.dumps(c(x), sort_keys=True)

def civil(ts):
    """Year, month, day, hour, minute, second of a time, within what dates can express."""
    ts = max(-8334632851200, min(8210298412799, ts))      # -262144-01-01 to 262143-12-31
    days, sec = divmod(ts, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1, sec // 3600, sec // 60 % 60, sec % 60

def iso_date(ts):
    y, m, d, h, mi, s = civil(ts)
    return "%s-%02d-%02dT%02d:%02d:%02d" % ("%04d" % y if 0 <= y <= 9999 else "%+05d" % y, m, d, h, mi, s)

def summ(vals):
    return dict(samples=sorted(vals), count=len(vals), sum=sum(vals))

def hist(vals, bounds):
    """Bins as the bounds in order make them; what is no number lies beyond all of them."""
    bounds = sorted(b for b in bounds if not math.isnan(b)) or [1, 10, 100, 1000]
    bins = [[num(b), 0] for b in bounds + [math.inf]]
    for v in vals:
        bins[next((i for i, b in enumerate(bounds) if v <= b), len(bounds))][1] += 1
    return dict(bins=bins, count=len(vals), sum=num(total(vals)))

def total(vals):
    t = vals[0] if vals else 0
    for v in vals[1:]: t = t + v
    return t

def value(kind, vals, bounds):
    if kind == "set": return num(vals[-1])
    if kind == "sum": return num(total(vals))
    if kind == "summ": return summ(vals)
    return hist(vals, bounds)

def tel(name, kind, vals, ts, persist=False, tags=None, bounds=(1, 10, 100, 1000)):
    return dict(k="tel", name=name, kind=kind, v=value(kind, vals, bounds), ts=ts, persist=persist, tags=tags or {})

# ---- protobuf, as resources/protobufs/native.proto has it ----
def varint(n):
    n &= (1 << 64) - 1
    r = b""
    while n > 127:
        r += bytes([n & 127 | 128]); n >>= 7
    return r + bytes([n])

def field(no, wire, data):
    return varint(no << 3 | wire) + data

def blob(no, data):
    if isinstance(data, str): data = data.encode()
    return field(no, 2, varint(len(data)) + data)

def entry(no, k, v):
    return blob(no, blob(1, k) + blob(2, v))

METHODS = {"sum": 1, "set": 2, "summ": 3, "hist": 4}
NUMS = [0, 1, 2, 3, 5, 7, 10, 64, 100, -1, -3, 0.5, 2.25, 1000000]
TAGS = [{}, {"a": "1"}, {"a": "1", "b": "2"}, {"host": "h1", "zone": "", "ключ": "знач"}]

def pb_point(rnd, name):
    """One point: its bytes and the event it stands for (None if it has no samples)."""
    kind = rnd.choice(["sum", "set", "summ", "hist"])
    vals = [rnd.choice(NUMS) for _ in range(rnd.choice([1, 1, 1, 2, 3, 6]))]
    if kind != "summ" and rnd.random() < .1: vals[rnd.randrange(len(vals))] = rnd.choice([math.nan, math.inf, -math.inf])
    tags = rnd.choice(TAGS)
    ts = rnd.choice([0, 1, 1000000, 1500000000, 4102444800, -1, -62135596800, 9223372036854774, -9223372036854774, 9007199254740993])
    persist = rnd.random() < .5
    fields = [blob(1, name)]
    if rnd.random() < .8: fields.append(blob(2, b"".join(struct.pack("<d", v) for v in vals)))
    else: fields += [field(2, 1, struct.pack("<d", v)) for v in vals]
    if persist or rnd.random() < .3: fields.append(field(3, 0, varint(int(persist))))
    if kind != "summ" or rnd.random() < .5: fields.append(field(4, 0, varint(METHODS[kind])))
    for k, v in tags.items():
        if rnd.random() < .2: fields.append(entry(5, k, "overridden"))
        fields.append(entry(5, k, v))
    if ts or rnd.random() < .5: fields.append(field(6, 0, varint(ts * 1000 + (1 if ts >= 0 else -1) * rnd.choice([0, 0, 1, 500, 999]))))
    bounds = (1, 10, 100, 1000)
    if kind == "hist" and rnd.random() < .7:
        bounds = rnd.choice([(5,), (0, 10), (2, 10, 64), (64, 2, 10), (3, 3), (-5, -.5, 0), (math.inf, 1), (math.nan,), (7, math.nan, 1), (math.nan, 2, -math.inf)])
        fields += [field(7, 1, struct.pack("<d", b)) for b in bounds]
    if rnd.random() < .2: fields.append(blob(15, b"unknown"))
    if rnd.random() < .3:
        f1 = [x for x in fields if x[0] >> 3 not in (2, 5, 7)]
        f2 = [x for x in fields if x[0] >> 3 in (2, 5, 7)]
        rnd.shuffle(f1)
        fields = f2 + f1
    return b"".join(fields), tel(name, kind, vals, ts, persist, tags, bounds)

def pb_line(rnd, name):
    tags = rnd.choice(TAGS)
    ts = rnd.choice([0, 1, 1000000, 1500000000, 4102444800, 9223372036854774, 9007199254740993])
    text = rnd.choice(["", "a line", "line with\nbreak", "ünï", "x" * 300])
    b = blob(1, name) + blob(2, text) + b"".join(entry(3, k, v) for k, v in tags.items())
    if ts: b += field(4, 0, varint(ts * 1000 + rnd.choice([0, 7, 999])))
    return b, dict(k="log", path=name, value=text, ts=ts, fields={}, tags=tags)

def native(rnd, kind, tag, ev):
    """(payload, events)"""
    if kind == "empty": return b"", []
    if kind == "bad":
        good, _ = native(rnd, "good", tag, 2)
        return rnd.choice([b"\xff" * rnd.randint(1, 12), b"\x12\x7fabc", b"\x17", good + b"\x12\xff\x7f" + b"x" * 9, good[:-1],
                           blob(2, blob(1, b"\xff\xfe")), good + b"\x12"]), []
    pts, lines, events, levents = [], [], [], []
    n = rnd.randint(0, ev)
    for i in range(n):
        b, e = pb_point(rnd, "%s.%d" % (tag, i))
        pts.append(blob(2, b)); events.append(e)
    for i in range(n, ev):
        b, e = pb_line(rnd, "%s.%d" % (tag, i))
        lines.append(blob(3, b)); levents.append(e)
    for _ in range(rnd.choice([0, 0, 1])): pts.insert(rnd.randint(0, len(pts)), blob(2, blob(1, "no samples")))
    # points and lines each keep their order, whatever comes first on the wire
    parts = []
    while pts or lines:
        src = pts if pts and (not lines or rnd.random() < .5) else lines
        parts.append(src.pop(0))
    if not parts: parts = [blob(15, b"unknown")]
    return b"".join(parts), events + levents

# ---- avro ----
def blobs():
    d = os.path.join(REPO, "resources/tests/data")
    return {n: open(os.path.join(d, n), "rb").read() for n in ("users-null.avro", "users-deflate.avro", "users-snappy.avro")}

def text(b):
    try: return b.decode()
    except UnicodeDecodeError: return "hex:" + b.hex()

def raw(order, data, meta):
    return dict(k="raw", order=order, enc="avro", bytes=text(data), meta=None if meta is None else sorted([text(k), text(v)] for k, v in meta.items()))

def avro_header(version, control, ident, order):
    return struct.pack(">IIQQ", version, control, ident, order)

def kvs(pairs):
    r = bytes([len(pairs)])
    for k, v in pairs: r += bytes([len(k)]) + k + struct.pack(">H", len(v)) + v
    return r

PAIRS = [[], [(b"k", b"v")], [(b"k", b"v"), (b"k2", b"")], [(b"\xff\x00", b"\x80"), ("é".encode(), b"x" * 300)], [(b"", b"")]]

def avro(rnd, kind, tag, ev, order=0, store={}):
    if not store: store.update(blobs())
    if kind == "empty": return b"", []
    data = store[rnd.choice(sorted(store))]
    version = rnd.choice([1, 2, 2, 0, 3, 0xffffffff])
    pairs = rnd.choice(PAIRS)
    head = avro_header(version, rnd.choice([0, 0, 2, 0xfffffffe]), rnd.getrandbits(64), order)
    full = head + (kvs(pairs) if version >= 2 else b"")
    if kind == "bad":
        return rnd.choice([head[:rnd.randint(1, 23)], full, full + data[:20], full + b"Obj\x02" + data[4:], head[:4],
                           full + b"Obj\x01" + b"\x02\xfe\xff\xff\xff\xff\xff\xff\xff\x7f", full + rnd.choice([b"{}", b"\0" * 40])]), []
    return full + data, [raw(order, data, dict(pairs) if version >= 2 and pairs else None)]

def frame(payload):
    return struct.pack(">I", len(payload)) + payload

# ---- graphite ----
F64 = re.compile(r"[+-]?((\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|inf|NaN)$")
I64 = re.compile(r"[+-]?\d+$")

def parse_graphite(line):
    """Events of a line, None if it is malformed."""
    try: toks = line.decode().split()
    except UnicodeDecodeError: return None
    if not toks or len(toks) % 3: return None
    r = []
    for n, v, t in zip(toks[::3], toks[1::3], toks[2::3]):
        if not F64.match(v) or not v.isascii() or not I64.match(t) or not t.isascii() or not -2**63 <= int(t) < 2**63: return None
        r.append(tel(n, "set", [float(v)], int(t)))
    return r

def graphite(rnd, kind, tag, ev):
    """A line without its end."""
    sp = lambda: rnd.choice([" ", " ", " ", "\t", "  "])
    v = lambda: rnd.choice(["0", "1", "-2.5", "+7", "1e3", ".5", "5.", "123456789", "inf", "-inf", "1e400", "NaN", "0.1"])
    t = lambda: rnd.choice(["0", "10", "1500000000", "-5", "+9", "9223372036854775807", "-9223372036854775808"])
    def point(i): return "%s%s%s%s%s%s" % (rnd.choice(["", "ü.", "a@b%", "x" * 200, "日本"]), "%s.%d" % (tag, i), sp(), v(), sp(), t())
    if kind == "blank": return rnd.choice([b" ", b"\t ", b"\r"]), []
    if kind == "good":
        s = sp().join(point(i) for i in range(ev)).encode()
        if rnd.random() < .1: s = b" " + s
        if rnd.random() < .2: s += rnd.choice([b" ", b"\r", b"\t"])
        return s, parse_graphite(s)
    p = point(0).encode()
    return rnd.choice([p + b" b x 3", p + b" b 1 3.5", p + b" b", p + b" b 1", b"just", b"a 1", b"a 1x 3", b"a 1 1e3", b"\xff\xfe 1 2", p + b" \xc3 1 2", b"a 1 9223372036854775808",
                       b"a,1,2", b"a: 1|c", b"a -- 2", b"a . 2", b"a 1 2 3", b"\x00\x01\x02", "a ١ 2".encode(), p + b" " + p + b" " + p + b" q"]), []

def pieces(rnd, data, n):
    """Cut into n parts, none empty; None if that cannot be done."""
    if n == 0: return [] if not data else None
    if len(data) < n: return None
    cuts = [0] + sorted(rnd.sample(range(1, len(data)), n - 1)) + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]
