"""Runs of the whole program: configuration, clients, servers, signal, what came out."""
from concurrent.futures import ThreadPoolExecutor
import itertools, os, random, re, select, signal, socket, struct, subprocess, threading, time
from vlib import *
import wire

_ports = itertools.count(random.SystemRandom().randrange(2000))
_lock = threading.Lock()

def port(kind=socket.SOCK_STREAM):
    """A port that is free now, below the range the system hands out."""
    for _ in range(10000):
        with _lock: p = 10000 + next(_ports) * 7 % 22000
        s = socket.socket(socket.AF_INET, kind)
        try:
            if kind == socket.SOCK_STREAM: s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", p))
            return p
        except OSError: continue
        finally: s.close()
    raise ToolError("no free port")

def table(proto):
    """(local port, remote port, state, to be sent, to be read) of the sockets."""
    r = []
    with open("/proc/net/" + proto) as f:
        next(f)
        for line in f:
            t = line.split()
            tx, rx = t[4].split(":")
            r.append((int(t[1].split(":")[1], 16), int(t[2].split(":")[1], 16), t[3], int(tx, 16), int(rx, 16)))
    return r

def wait(f, secs, step=.005):
    end = time.time() + secs
    while not f():
        if time.time() > end: return False
        time.sleep(step)
    return True

class Server:
    """Accepts connections and keeps what they send."""
    def __init__(self, p):
        self.data, self.port, self.stop = [], p, False
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", p))
        self.s.listen(50)
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()
    def run(self):
        live = {self.s: None}
        while not self.stop or len(live) > 1:
            r, _, _ = select.select(list(live), [], [], .05)
            if not r and self.stop: break
            for x in r:
                if x is self.s:
                    n, _ = x.accept()
                    self.data.append(bytearray())
                    live[n] = self.data[-1]
                else:
                    try: b = x.recv(1 << 16)
                    except OSError: b = b""
                    if b: live[x] += b
                    else:
                        del live[x]
                        x.close()
        self.s.close()
    def finish(self):
        self.stop = True
        self.t.join(30)
        return [bytes(d) for d in self.data]

# ---- the native protocol, read ----
def varint(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s; s += 7; i += 1
        if not b[i - 1] & 128: return n, i

def fields(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        w = t & 7
        if w == 0: v, i = varint(b, i)
        elif w == 1: v, i = b[i:i + 8], i + 8
        elif w == 2:
            n, i = varint(b, i)
            v, i = b[i:i + n], i + n
        else: raise ValueError("wire type %d" % w)
        yield t >> 3, v

def entries(vs):
    r = {}
    for v in vs:
        d = dict(fields(v))
        r[d.get(1, b"").decode()] = d.get(2, b"").decode()
    return r

def native(data):
    """(points, lines): (name, samples, tags), (path, value, tags); complete payloads only."""
    pts, lines = [], []
    for b in data:
        i = 0
        while i + 4 <= len(b):
            n = struct.unpack(">I", b[i:i + 4])[0]
            if i + 4 + n > len(b): break
            for no, v in fields(b[i + 4:i + 4 + n]):
                f = list(fields(v))
                one = dict(f)
                if no == 2:
                    smp = b"".join(x for k, x in f if k == 2)
                    pts.append((one[1].decode(), [x[0] for x in struct.iter_unpack("<d", smp)], entries([x for k, x in f if k == 5])))
                elif no == 3:
                    lines.append((one[1].decode(), one.get(2, b"").decode(), entries([x for k, x in f if k == 3])))
            i += 4 + n
    return pts, lines

def wavefront(data):
    """(name, value, tags) of complete lines."""
    r = []
    for b in data:
        for line in b.decode().split("\n")[:-1]:
            m = re.match(r"(\S+) (\S+) (\d+)((?: [^ =]+=(?:\"[^\"]*\"|\S*))*)\s*$", line)
            if not m: raise ValueError("not a wavefront line: %r" % line)
            r.append((m.group(1), float(m.group(2)), dict((k, v.strip('"')) for k, v in re.findall(r" ([^ =]+)=(\"[^\"]*\"|\S*)", m.group(4)))))
    return r

def console(text):
    """(points: (name, value), lines: (path, value, tags))."""
    pts, lines, mode = [], [], None
    for l in text.split("\n"):
        if l.startswith("Flushing lines"): mode = "lines"
        elif l.startswith("Flushing metrics"): mode = "points"
        elif re.match(r"\[[a-z_:]+\]\[\d+\]", l): continue
        elif mode == "points":
            m = re.match(r"    (\S+)\((-?\d+)\): (\S+)$", l)
            if m: pts.append((m.group(1), float(m.group(3))))
        elif mode == "lines":
            m = re.match(r"\S+ (\S+): (\S*)((?: [^ =]+=\S*)*)$", l)
            if m: lines.append((m.group(1), m.group(2), dict(t.split("=", 1) for t in m.group(3).split())))
    return pts, lines

def prometheus(p):
    """(name, value, tags) of what is exposed now."""
    s = socket.create_connection(("127.0.0.1", p), timeout=10)
    s.sendall(b"GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\nAccept: text/plain\r\n\r\n")
    b = b""
    try:
        while True:
            x = s.recv(1 << 16)
            if not x: break
            b += x
    finally: s.close()
    return b

PLAIN = """function process_metric(pyld)
end
function process_log(pyld)
end
function tick(pyld)
end
"""

def marking(name, ticks):
    return """function mark(old)
   if old == nil or old == "" then return "%s" end
   return old .. "." .. "%s"
end
function process_metric(pyld)
   payload.metric_set_tag(pyld, 1, "via", mark(payload.metric_tag_value(pyld, 1, "via")))
end
function process_log(pyld)
   payload.log_set_tag(pyld, 1, "via", mark(payload.log_tag_value(pyld, 1, "via")))
end
function tick(pyld)
   %s
end
""" % (name, name, 'payload.push_metric(pyld, "tick_%s", 1)' % name if ticks else "")

class Appender:
    """A file to append to, used as a socket is."""
    def __init__(self, path): self.f = open(path, "ab", buffering=0)
    def sendall(self, b): self.f.write(b)
    def close(self): self.f.close()

class Run:
    """One process in a scratch directory."""
    def __init__(self, work, cid, top, sections):
        self.dir = work.path("e2e-%s" % cid)
        os.makedirs(os.path.join(self.dir, "data"))
        os.makedirs(os.path.join(self.dir, "scripts"))
        self.p = None
        self.top, self.sections = top, sections   # sections: [(name, {key: value})]
    def start(self, args=()):
        def val(v):
            if isinstance(v, bool): return "true" if v else "false"
            if isinstance(v, (int, float)): return repr(v)
            return json.dumps(v)
        t = "".join("%s = %s\n" % (k, val(v)) for k, v in dict(self.top, **{"data-directory": os.path.join(self.dir, "data"), "scripts-directory": os.path.join(self.dir, "scripts")}).items())
        for name, d in self.sections: t += "[%s]\n" % name + "".join("%s = %s\n" % (k, val(v)) for k, v in d.items())
        self.config = t
        with open(os.path.join(self.dir, "c.toml"), "w") as f: f.write(t)
        self.out = open(os.path.join(self.dir, "out.txt"), "wb")
        self.err = open(os.path.join(self.dir, "err.txt"), "wb")
        env = dict(os.environ, RUST_BACKTRACE="0", TMPDIR=self.dir)
        self.p = subprocess.Popen([CERNAN, "-C", os.path.join(self.dir, "c.toml")] + list(args), stdout=self.out, stderr=self.err, stdin=subprocess.DEVNULL, cwd=self.dir, env=env)
    def script(self, name, text):
        with open(os.path.join(self.dir, "scripts", name), "w") as f: f.write(text)
    def log(self, i):
        p = os.path.join(self.dir, "%d.log" % i)
        if not os.path.exists(p): open(p, "w").close()
        return p
    def size(self, i): return os.stat(self.log(i)).st_size
    def positions(self, i):
        """Where the program is in a file it watches."""
        d, r = "/proc/%d/fd" % self.p.pid, []
        try:
            for fd in os.listdir(d):
                try:
                    if os.readlink(os.path.join(d, fd)) == self.log(i):
                        with open("/proc/%d/fdinfo/%s" % (self.p.pid, fd)) as f: r.append(int(f.readline().split()[1]))
                except OSError: pass
        except OSError: pass
        return r
    def appender(self, i): return Appender(self.log(i))
    def stdout(self): return open(os.path.join(self.dir, "out.txt"), errors="replace").read()
    def stderr(self): return open(os.path.join(self.dir, "err.txt"), errors="replace").read()
    def listening(self, tcp, udp, secs=30):
        def up():
            if self.p.poll() is not None: return True
            t = {x[0] for x in table("tcp") if x[2] == "0A"}
            u = {x[0] for x in table("udp")} if udp else set()
            return set(tcp) <= t and set(udp) <= u
        return wait(up, secs, .02) and self.p.poll() is None
    def signal(self, sig): self.p.send_signal(sig)
    def exit(self, secs):
        try: return self.p.wait(secs)
        except subprocess.TimeoutExpired: return None
    def close(self):
        if self.p is None: return shutil.rmtree(self.dir, ignore_errors=True)
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.out.close(); self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)
