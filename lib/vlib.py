"""Common machinery: building, running TLC, replaying, reporting.

Exit codes: 0 held, 1 VIOLATION (with replay file), 2 error of the check.
"""
from concurrent.futures import ThreadPoolExecutor
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(REPO, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", LANG="C.UTF-8",
               PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               RUSTUP_TOOLCHAIN="1.39.0", CARGO_HOME=os.path.join(TARGET, ".verif-cargo-home"), CARGO_TARGET_DIR=TARGET,
               CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never")
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def _tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
             os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml")]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()


def build(need_bin=False):
    """Build the harness (and the cernan program) from /repo's working tree.

    Cargo decides by modification times; to be independent of how the tree was
    laid down, the fingerprints of cernan are dropped whenever the contents
    differ from what was built last."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".verif-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # cargo locks files in its home; the given one must stay untouched
    home = os.path.join(TARGET, ".verif-cargo-home")
    os.makedirs(home, exist_ok=True)
    shutil.copyfile("/opt/vp/cargo-home/config", os.path.join(home, "config"))
    stamp = os.path.join(TARGET, ".verif-stamp")
    h = _tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != h:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(cernan|vh)-[0-9a-f]+$", d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    t = time.time()
    # the stand-ins for what making a TLS context needs, see harness/src/tls.rs
    stubs = re.findall(r"^    __wrap_(\w+)\(", open(os.path.join(HARNESS, "src", "tls.rs")).read(), re.M)
    args = [x for f in stubs for x in ("-C", "link-arg=-Wl,--wrap=" + f)]
    cmds = [(["cargo", "rustc", "--offline", "--locked", "--bin", "vh", "--"] + args, HARNESS)]
    cmds.append((["cargo", "build", "--offline", "--locked", "--bin", "cernan"], REPO))
    for cmd, cwd in cmds:
        r = subprocess.run(cmd, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=1500)
        if r.returncode != 0:
            m = re.search(r"^error.*?(?=^warning|\Z)", r.stdout, re.S | re.M)
            raise ToolError("build failed: %s\n%s" % (" ".join(cmd), (m.group(0)[:3000] if m else r.stdout[-3000:])))
    with open(stamp, "w") as f:
        f.write(h)
    lock.close()
    return time.time() - t


VH = os.path.join(TARGET, "debug", "vh")
CERNAN = os.path.join(TARGET, "debug", "cernan")


class Work:
    """Scratch directory of one check run."""
    def __init__(self, name):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class TLC:
    """Result of one TLC run."""
    def __init__(self):
        self.states = 0      # distinct
        self.generated = 0
        self.emitted = []
        self.ok = False
        self.out = ""
        self.wall = 0.0
        self.violated = None
        self.coverage = {}


class Tla(str):
    """A TLA+ expression, verbatim."""


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, Tla):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(0 - %d)" % -v
    if isinstance(v, str):
        for ch in v:
            if not (32 <= ord(ch) < 127):
                raise ToolError("string %r cannot go to TLC" % v)
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise ToolError("constant %r" % (v,))


def tlc(work, module, *, constants=None, spec=None, init="Init", next="Next", invariants=(), properties=(),
        action_constraints=(), constraints=(), view=None, postcondition=None, symmetry=None, simulate=None, depth=None,
        seed=1, workers=4, timeout=600, emit=True, heap="6g", extra_files=None, env=None, dfs=False, expect_ok=True):
    """Run TLC on spec/<module>.tla.  Lines printed as "@@json" are collected in .emitted."""
    run = tempfile.mkdtemp(prefix=module + "-", dir=work.dir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(run, f))
    for name, text in (extra_files or {}).items():
        p = os.path.join(run, name)
        if os.path.lexists(p):
            os.remove(p)
        with open(p, "w") as f:
            f.write(text)
    mc = ["---- MODULE MC ----", "EXTENDS %s" % module]
    cfg = []
    if spec:
        cfg.append("SPECIFICATION %s" % spec)
    else:
        cfg += ["INIT %s" % init, "NEXT %s" % next]
    if constants:
        cfg.append("CONSTANTS")
        for k, v in constants.items():
            mc.append("mc_%s == %s" % (k, tla(v)))
            cfg.append("  %s <- mc_%s" % (k, k))
    mc.append("====")
    with open(os.path.join(run, "MC.tla"), "w") as f:
        f.write("\n".join(mc) + "\n")
    for key, vals in (("INVARIANT", invariants), ("PROPERTY", properties),
                      ("ACTION_CONSTRAINT", action_constraints), ("CONSTRAINT", constraints)):
        for v in vals:
            cfg.append("%s %s" % (key, v))
    if view:
        cfg.append("VIEW %s" % view)
    if symmetry:
        cfg.append("SYMMETRY %s" % symmetry)
    if postcondition:
        cfg.append("POSTCONDITION %s" % postcondition)
    cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(run, "run.cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    jopts = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
    if dfs:
        jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = jopts + ["-cp", JAR, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(run, "meta"),
                   "-workers", str(workers), "-fp", "1", "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
    if depth:
        cmd += ["-depth", str(depth)]
    cmd.append("MC.tla")
    t = time.time()
    res = TLC()
    out = []
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=run, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out after %ds on %s" % (timeout, module))
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith('"@@'):
            if emit:
                res.emitted.append(json.loads(json.loads(line)[2:]))
            continue
        out.append(line)
    res.out = "\n".join(out)
    res.wall = time.time() - t
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", res.out):
        pass
    if m:
        res.generated, res.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", res.out)
    if m and not res.generated:
        res.generated = int(m.group(1))
    res.ok = p.returncode == 0
    m = re.search(r"Error: (?:Invariant|Temporal properties|Action property) ?(\w+)?", res.out)
    if m:
        res.violated = m.group(0)
    if expect_ok and not res.ok:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, "\n".join(
            l for l in out if not l.startswith(("Parsing", "Semantic", "Linting")))[-2500:]))
    shutil.rmtree(run, ignore_errors=True)
    return res


def harness(work, driver, cases, *, workers=8, timeout=300, case_timeout=60, env=None, args=()):
    """Replay cases (list of dicts with unique "id") in the harness.  Returns {id: result}.

    A case on which the harness process dies or hangs gets {"crash": ...}; it is
    run on its own to attribute the failure, and the rest is run again."""
    results = {}
    todo = list(cases)
    deadline = time.time() + timeout
    rounds = 0
    while todo:
        rounds += 1
        if time.time() > deadline or rounds > 60:
            raise ToolError("harness %s: out of time with %d cases left" % (driver, len(todo)))
        inp, outp, errp = work.path("in.ndjson"), work.path("out.ndjson"), work.path("err.txt")
        with open(inp, "w") as f:
            for c in todo:
                f.write(json.dumps(c) + "\n")
        scratch = tempfile.mkdtemp(prefix="vh-", dir=work.dir)
        e = dict(os.environ)
        e.update(env or {})
        e["VH_SCRATCH"] = scratch
        e["VH_CASE_TIMEOUT"] = str(case_timeout)
        e["TMPDIR"] = scratch
        e["RUST_BACKTRACE"] = "0"
        try:
            with open(errp, "w") as ef:
                p = subprocess.run([VH, driver, inp, outp, str(workers)] + list(args), env=e, stdout=ef, stderr=ef,
                                   timeout=max(5, deadline - time.time()))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s timed out" % driver)
        started, done = [], {}
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in r:
                        started.append(r["start"])
                    else:
                        done[r["id"]] = r
        results.update(done)
        shutil.rmtree(scratch, ignore_errors=True)
        left = [c for c in todo if c["id"] not in done]
        if rc == 0 and left:
            raise ToolError("harness %s lost %d cases" % (driver, len(left)))
        if rc != 0:
            err = open(errp).read()[-3000:]
            sus = [c for c in left if c["id"] in started]
            if rc == 3:
                raise ToolError("harness %s: %s" % (driver, err))
            if len(sus) == 1 or workers == 1:
                if not sus:
                    raise ToolError("harness %s died (rc %d) outside any case: %s" % (driver, rc, err))
                results[sus[0]["id"]] = {"id": sus[0]["id"], "crash": "process died with status %d: %s" % (rc, err[-600:])}
                left = [c for c in left if c["id"] != sus[0]["id"]]
            elif not sus:
                raise ToolError("harness %s died (rc %d) outside any case: %s" % (driver, rc, err))
            else:
                # attribute: run the suspects one by one first
                r2 = {}
                for c in sus:
                    r2.update(harness(work, driver, [c], workers=1, timeout=max(5, deadline - time.time()),
                                      case_timeout=case_timeout, env=env, args=args))
                results.update(r2)
                left = [c for c in left if c["id"] not in r2]
        todo = left
        if sum("crash" in r for r in results.values()) > 4:
            for c in todo:
                results[c["id"]] = {"id": c["id"], "skipped": True}
            todo = []
    return results


def harness_apart(name, driver, cases, parts=8, timeout=800):
    """Counters belong to the process: a process per part, a case at a time."""
    from concurrent.futures import ThreadPoolExecutor
    works = [Work("%s-%d" % (name, i)) for i in range(parts)]
    res = {}
    try:
        with ThreadPoolExecutor(parts) as ex:
            for r in ex.map(lambda i: harness(works[i], driver, cases[i::parts], workers=1, timeout=timeout) if cases[i::parts] else {}, range(parts)): res.update(r)
    finally:
        for w in works: w.close()
    return res


class Check:
    """One property's check: collects coverage, findings and violations, writes the evidence."""
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = Work(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.spec_runs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, what):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.generated
        self.spec_runs.append({"what": what, "distinct_states": r.states, "states_generated": r.generated,
                               "wall_s": round(r.wall, 2)})

    def model(self, module, what, **kw):
        """Exhaustive (or simulated) exploration of the specification itself.  A failure here means the
        specification violates its own properties: an error of the machinery, never a verdict on the code."""
        r = tlc(self.work, module, **kw)
        self.add_tlc(r, what)
        return r

    def models(self, jobs, par=4):
        """Several TLC runs at once: jobs are (module, what, kwargs)."""
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(tlc, self.work, m, **kw) for m, _, kw in jobs]
            res = [f.result() for f in fs]
        for (_, what, _), r in zip(jobs, res):
            self.add_tlc(r, what)
        return res

    def validate(self, module, traces, *, what="recorded run", constants=None, invariants=("TSane",), view="TView",
                 cases=None, timeout=600, heap="8g", key=None):
        """Trace validation: traces (list of dicts of TLA values) go to Data.tla as Traces; the specification
        prints the numbers of those it accepts; the others are violations."""
        data = "---- MODULE Data ----\nEXTENDS Integers\nTraces == <<\n%s\n>>\n====\n" % ",\n".join(tla(t) for t in traces)
        r = tlc(self.work, module, constants=constants, init="TInit", next="TNext", view=view,
                invariants=list(invariants) + ["Report"], extra_files={"Data.tla": data}, workers=1, timeout=timeout, heap=heap)
        self.add_tlc(r, "trace validation of %d %ss" % (len(traces), what))
        ok = set(r.emitted)
        self.cov["traces_validated_against_impl"] += len(traces)
        for i, t in enumerate(traces):
            if i + 1 not in ok:
                c = (cases or traces)[i]
                self.violation("a %s is not a behaviour of the specification" % what, {"recorded": t, "case": c},
                               key=key(c, t) if key else None)

    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, replay, key=None):
        """key identifies the failing input / site / history, for the known-findings file."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    if key not in self.known_hit:
                        self.known_hit[key] = k
                    return
        self.violations.append((what, replay))

    def compare(self, cases, results, expect, observe=lambda r: r.get("obs"), key=None, limit=5, norm=None):
        """Compare what the specification expects with what the code did, case by case."""
        n = skipped = 0
        for c in cases:
            r = results[c["id"]]
            if "skipped" in r:
                skipped += 1
                continue
            exp = expect(c)
            if "crash" in r or "panic" in r or "hang" in r:
                obs = {k: r[k] for k in ("crash", "panic", "hang") if k in r}
            else:
                obs = observe(r)
            if norm:
                exp, obs = norm(exp), norm(obs)
            n += 1
            if exp != obs:
                self.violation("the code's behaviour is not the one the specification allows",
                               {"case": c, "expected": exp, "observed": obs},
                               key=key(c, exp, obs) if key else None)
                if len(self.violations) >= limit:
                    break
        self.cov["traces_validated_against_impl"] += n
        if skipped and not self.violations:
            raise ToolError("%d cases were skipped" % skipped)
        return n

    def finish(self):
        for k in self.known:
            if k["key"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.cov["specification_runs"] = self.spec_runs
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))
        rc = 0
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed,
                           "violations": [{"what": w, "replay": r} for w, r in self.violations[:10]]}, f, indent=1, default=sorted)
            w, r = self.violations[0]
            print("%s: %s" % (self.prop, w))
            print(json.dumps(r, default=sorted)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.cov.get("states", 0), self.cov.get("transitions", 0),
                self.cov.get("traces_validated_against_impl", 0), time.time() - self.t0))
        self.work.close()
        return rc


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    res.append(d)
    return res


def main(prop, fn, level="model_checking"):
    chk = None
    try:
        build()
        chk = Check(prop, level)
        fn(chk)
        rc = chk.finish()
    except ToolError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("ERROR property=%s" % prop)
        rc = 2
    finally:
        if chk is not None:
            chk.work.close()
    sys.stdout.flush()
    sys.exit(rc)
