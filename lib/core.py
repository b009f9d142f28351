"""Build, worker pool, evidence, violations and known findings, shared by every check."""
import hashlib, json, os, resource, subprocess, sys, time, fcntl, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, ".target")
WORK = os.path.join(VERIF, ".work")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    """The check itself could not run (never a verdict)."""


def source_hash():
    h = hashlib.sha256()
    for top in ("doctor-syn", "libmgen", "Cargo.toml"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    for d in ("harness",):
        for dd, ds, fs in os.walk(os.path.join(VERIF, d)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                with open(os.path.join(dd, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_built = None


def build():
    """Build vh and libmgen from /repo's current working tree; return their folder."""
    global _built
    if _built:
        return _built
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = source_hash()
        stamp = os.path.join(TARGET, ".stamp")
        bins = os.path.join(TARGET, "release")
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
        harness = os.path.join(VERIF, "harness")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != h or not all(os.path.exists(os.path.join(bins, b)) for b in ("vh", "libmgen")):
            # Times of files do not decide what is rebuilt: contents do.
            if os.path.exists(stamp):
                os.remove(stamp)
            for d in (".fingerprint",):
                fp = os.path.join(bins, d)
                if os.path.isdir(fp):
                    for e in os.listdir(fp):
                        if e.startswith(("doctor-syn-", "vharness-")):
                            shutil.rmtree(os.path.join(fp, e))
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=harness, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("build failed:\n" + r.stdout[-4000:])
            with open(stamp, "w") as f:
                f.write(h)
    _built = bins
    return bins


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")


def unesc(s):
    if "\\" not in s:
        return s
    out, i = [], 0
    m = {"n": "\n", "t": "\t", "r": "\r"}
    while i < len(s):
        if s[i] == "\\":
            out.append(m.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


_serial = 0
_hangs = 0      # once requests have hung for the full time, the others get less
_serial_lock = threading.Lock()


class Response(list):
    """status in OK ERR PANIC HANG CRASH; the fields; .noise is anything else printed before it."""
    status = ""
    noise = ""


def _run_chunk(reqs, stall):
    global _serial, _hangs
    with _serial_lock:
        _serial += 1
        n = _serial
    vh = os.path.join(build(), "vh")
    out = []
    pos = 0
    base = os.path.join(WORK, "vh-%d-%d" % (os.getpid(), n))
    while pos < len(reqs):
        fi, fo = base + ".in", base + ".out"
        with open(fi, "w") as f:
            for r in reqs[pos:]:
                f.write("\t".join(esc(str(x)) for x in r) + "\n")
        with open(fi) as i, open(fo, "w") as o:
            p = subprocess.Popen([vh], stdin=i, stdout=o, stderr=subprocess.DEVNULL, preexec_fn=_limits)
            last, t = -1, time.time()
            hung = False
            while True:
                try:
                    p.wait(timeout=0.02 if time.time() - t < 1 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                size = os.path.getsize(fo)
                if size != last:
                    last, t = size, time.time()
                elif time.time() - t > (stall if _hangs < 4 else min(stall, 5) if _hangs < 20 else 1):
                    hung = True
                    with _serial_lock:
                        _hangs += 1
                    p.kill()
                    p.wait()
                    break
        with open(fo, errors="replace", newline="\n") as f:
            data = f.read()
        lines = data.split("\n")
        complete = lines[:-1]
        noise = []
        got = 0
        for line in complete:
            k = line.find("\x01")
            if k < 0:
                noise.append(line)
                continue
            if k > 0:
                noise.append(line[:k])
            parts = line[k + 1:].split("\t")
            r = Response(unesc(x) for x in parts[1:])
            r.status = parts[0]
            r.noise = "\n".join(noise)
            noise = []
            out.append(r)
            got += 1
        pos += got
        if pos < len(reqs):
            r = Response(["no answer within %d s" % stall if hung else "process ended (%s)" % p.returncode])
            r.status = "HANG" if hung else "CRASH"
            r.noise = ""
            out.append(r)
            pos += 1
        for f in (fi, fo):
            os.remove(f)
    return out


def vh(reqs, stall=30, chunk=None):
    """Run the requests (lists of fields) on the real library; responses in order."""
    reqs = list(reqs)
    build()
    if not reqs:
        return []
    if chunk is None:
        chunk = max(1, min(1000, (len(reqs) + JOBS - 1) // JOBS))
    parts = [reqs[i:i + chunk] for i in range(0, len(reqs), chunk)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda c: _run_chunk(c, stall), parts))
    out = [r for c in res for r in c]
    assert len(out) == len(reqs)
    for q, r in zip(reqs, out):
        if r.status == "ERR" and r and r[0].startswith("harness:"):
            raise CheckError("bad request %r: %s" % (q, r[0]))
    return out


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                f = line.split(None, 3)
                known[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3] if len(f) > 3 else ""
    return known


class Ctx:
    MAX = int(os.environ.get("VERIF_MAX", "25"))

    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.exhaustive = True
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known()

    # -- coverage -------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, s, every=None):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, (str, dict, list)) else str(s))

    def note(self, key, value):
        self.extra[key] = value

    # -- verdicts -------------------------------------------------------
    def violation(self, what, key=None, **data):
        """key identifies the specific failing input for the known-findings file."""
        if key is not None and (self.pid, key) in self.known:
            self.known_hit[key] = self.known[(self.pid, key)]
            return
        self.violations.append(dict(what=what, key=key, **data))
        if len(self.violations) >= self.MAX:
            raise StopCheck()

    def finish(self):
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"],
                   exhaustive=bool(self.exhaustive))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, d))
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d %s" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0,
            len(self.violations), json.dumps(self.extra)[:600]))
        if self.violations:
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, how="python3-vt run.py replay " + rp,
                               violations=self.violations), f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


class StopCheck(Exception):
    pass
