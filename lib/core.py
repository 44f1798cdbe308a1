"""Cases, the harness driver and the TLC driver."""
import json, os, re, shutil, subprocess, sys, threading, time, random, queue, fractions

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ texts
def T(s):
    return [ord(c) for c in s]


def U(t):
    return "".join(chr(c) for c in t)


# ----------------------------------------------------------------- values
NONE = {"t": "none"}


def vb(b):
    return {"t": "bool", "b": bool(b)}


def vi(n):
    return {"t": "int", "dec": T(str(n))}


def vf(text):
    """A float given by its display text."""
    return {"t": "flt", "fdec": T(text)}


def vs(s):
    return {"t": "str", "s": T(s)}


def vl(l):
    return {"t": "list", "l": list(l)}


def vm(d):
    return {"t": "map", "m": [{"k": T(k), "v": d[k]} for k in sorted(d)]}


def show(v):
    t = v["t"]
    if t == "none":
        return "none"
    if t == "bool":
        return "true" if v["b"] else "false"
    if t == "int":
        return U(v["dec"])
    if t == "flt":
        return "f" + U(v["fdec"])
    if t == "str":
        return repr(U(v["s"]))
    if t == "list":
        return "[" + ", ".join(map(show, v["l"])) + "]"
    return "{" + ", ".join("%s: %s" % (U(e["k"]), show(e["v"])) for e in v["m"]) + "}"


def float_text(x):
    """Shortest round-trip digits without exponent (what Rust's Display prints)."""
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    r = repr(x)
    # of two equally near shortest texts Rust's Display takes the one away from zero, repr the even one
    m, _, e = r.lower().partition("e")
    if "." in m and not m.endswith(".0") or e:
        q = fractions.Fraction(r)
        unit = fractions.Fraction(10) ** (int(e or 0) - (len(m.partition(".")[2])))
        d = fractions.Fraction(x) - q
        if abs(d) * 2 == unit and (d > 0) == (x > 0):
            up = q + (unit if x > 0 else -unit)
            if float(up) == x:
                n = str(abs(int(up / unit))).rjust(len(m.partition(".")[2]) + 1, "0")
                k = len(m.partition(".")[2])
                m = ("-" if x < 0 else "") + (n[:-k] + "." + n[-k:] if k else n)
                r = m + ("e" + e if e else "")
    if "e" in r or "E" in r:
        sign = ""
        if r[0] == "-":
            sign, r = "-", r[1:]
        m, e = r.lower().split("e")
        e = int(e)
        a, _, b = m.partition(".")
        digits = (a + b)
        point = len(a) + e
        if point >= len(digits):
            r = digits + "0" * (point - len(digits))
        elif point > 0:
            r = digits[:point] + "." + digits[point:]
        else:
            r = "0." + "0" * (-point) + digits
        r = sign + r
    if r.endswith(".0"):
        r = r[:-2]
    return r


FLOAT = re.compile(r"[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]+)?")
NUMTOK = re.compile(r"[0-9][0-9A-Za-z_.+\-]*")


def to_float(raw):
    """Correctly rounded (Python's float() is)."""
    return float(raw)


def float_table(texts):
    """Entries for the number spellings whose value is not determined by plain positional arithmetic."""
    tab = {}
    for t in texts:
        s = U(t)
        for m in NUMTOK.finditer(s):
            w = m.group(0)
            # a number token may be cut short by a delimiter: consider the prefixes as well
            for k in range(len(w), 0, -1):
                p = w[:k]
                if FLOAT.fullmatch(p):
                    mant = re.split("[eE]", p)[0].replace(".", "")
                    ex = re.split("[eE]", p)[1] if re.search("[eE]", p) else "0"
                    if len(mant.strip("0")) > 15 or abs(int(ex)) > 250 or len(mant) > 250:
                        tab[p] = float_text(to_float(p))
    return [{"raw": T(k), "text": T(v)} for k, v in sorted(tab.items())]


# ------------------------------------------------------------------ cases
DEFSYN = {"e": [T("{{"), T("}}")], "b": [T("{%"), T("%}")], "c": [T("{#"), T("#}")]}


def syn(e=None, b=None, c=None):
    f = lambda p: [T(p[0]), T(p[1])] if p else []
    return {"e": f(e), "b": f(b), "c": f(c)}


def flt(n, ps, bd="term", tag=None, msg="", v=NONE, rt=""):
    return {"n": T(n), "k": "flt", "ps": list(ps), "bd": bd, "tag": T(tag or n), "msg": T(msg), "v": v, "rt": rt, "chars": False}


def fmt(n, bd="wrap", tag=None, msg="", chars=None):
    if chars is None:      # (in pieces, or not)
        chars = bd == "wrap" and len(n + (tag or "")) % 2 == 0
    return {"n": T(n), "k": "fmt", "ps": [], "bd": bd, "tag": T(tag or n), "msg": T(msg), "v": NONE, "rt": "", "chars": chars}


BUILTIN = {"builtin": True, "bd": "default", "tag": [], "msg": [], "chars": False}


PIECES = [0]


def dfmt(bd="default", tag="D", msg="", chars=None):
    if chars is None:      # (in pieces, or not, in turns)
        PIECES[0] += 1
        chars = bd == "wrap" and PIECES[0] % 2 == 0
    return {"builtin": False, "bd": bd, "tag": T(tag), "msg": T(msg), "chars": chars}


def tpl(s, n="", role="anon"):
    return {"n": T(n), "s": s if isinstance(s, list) else T(s), "role": role}


def case(tpls, main=1, ctx=None, **kw):
    c = {"id": "", "mode": "render", "syn": DEFSYN, "defsyn": True, "tpls": tpls, "main": main,
         "ctx": ctx if ctx is not None else vm({}), "src": "from", "fns": [], "dfmt": BUILTIN, "depth": -1, "rdepth": -1,
         "tfn": False, "lim": -1, "wm": {"short": 0, "intr": 0, "zero": False}, "f32": [], "cl": False, "cn": False}
    c.update(kw)
    if c["syn"] is not DEFSYN:
        c["defsyn"] = False
    c["ftab"] = float_table([t["s"] for t in c["tpls"]])
    return c


# ---------------------------------------------------------------- harness
def build_harness(plain=False):
    """Builds the harness against /repo's working tree; without threads if the crate cannot be shared between them.
    plain: with upon's "unicode" feature off; None if the tree does not build like that."""
    out = ""
    target = os.path.join(VERIF, "target", "plain") if plain else os.path.join(VERIF, "target")
    os.makedirs(target, exist_ok=True)
    for features in ("", "--no-default-features --features unicode") if not plain else ("--no-default-features",):
        cmd = ("source /opt/vp/env.sh >/dev/null 2>&1; export CARGO_TARGET_DIR=%s; cd %s/harness && "
               "RUSTFLAGS=-Awarnings cargo build --offline --quiet %s" % (target, VERIF, features))
        p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(target, "debug", "harness")
        out = out or p.stdout
    if plain:
        return None
    raise ToolError("harness does not build:\n" + out[-4000:])


class Harness:
    """One harness process; restarted when it aborts or hangs on a case."""

    def __init__(self, exe, timeout=20):
        self.exe, self.timeout, self.p = exe, timeout, None

    def start(self):
        self.p = subprocess.Popen(["bash", "-c", "ulimit -v 3000000; ulimit -c 0; exec " + self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)
        self.q = queue.Queue()

        def pump(p, q):
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=pump, args=(self.p, self.q), daemon=True).start()

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None

    def ask(self, line):
        """Observation for one case; None if the process died, "hang" if it did not answer."""
        if not self.p:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return None
        try:
            o = self.q.get(timeout=self.timeout)
        except queue.Empty:
            self.stop()
            return "hang"
        if o is None:
            self.stop()
            return None
        return json.loads(o)


def run_harness(exe, cases, jobs=8, timeout=15):
    """Adds what was observed to every case ("obs"); an abort or a hang is an observation as well."""
    obs = [None] * len(cases)
    idx = iter(range(len(cases)))
    lock = threading.Lock()
    failed, dead = [], []

    def work():
        h = Harness(exe, timeout)
        while True:
            with lock:
                i = next(idx, None)
            if i is None or failed or len(dead) >= 8:       # (enough seen)
                break
            o = h.ask(json.dumps(cases[i]))
            if isinstance(o, dict) and "harness" in o:      # a panic outside of what the harness guards, e.g. displaying an error
                msg = o["harness"] if isinstance(o["harness"], str) else U(o["harness"])
                if msg.startswith("bad "):
                    failed.append("harness failed on case %s: %s" % (cases[i]["id"], msg))
                o = {"dead": "panic: " + msg}
            if o is None or o == "hang":
                dead.append(i)
            obs[i] = {"dead": "abort"} if o is None else {"dead": "hang"} if o == "hang" else o
        h.stop()
    # every case is a round trip; batches of threads keep the processes busy
    th = [threading.Thread(target=work) for _ in range(jobs)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if failed:
        raise ToolError(failed[0])
    return obs


# -------------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, workers=8, timeout=800, extra=(), heap="3g", xss="512m"):
    """Runs TLC; returns its output."""
    os.makedirs(workdir, exist_ok=True)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xss" + xss, "-Xmx" + heap] + (["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]) + [ "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in %d s" % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
COVER = re.compile(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", re.M)


def printed(out):
    """The JSON values printed by PrintT(ToJson(..)): TLA+ strings, one per line."""
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('"'):
            yield json.loads(json.loads(line))


def validate(cases, workdir, module="Trace", jobs=8, timeout=800, plain=False):
    """Runs a trace module over cases (with observations) in parallel TLC processes, each with its share of the
    cases.  Returns (verdicts by case index, stats).  Every case must get exactly one verdict."""
    os.makedirs(workdir, exist_ok=True)
    n = max(1, min(jobs, (len(cases) + 19) // 20))
    # deal the cases out round robin: cases of the same kind take about the same time
    shards = [list(range(k, len(cases), n)) for k in range(n)]
    results = [None] * n

    def work(k):
        path = os.path.join(workdir, "cases%d.json" % k)
        try:
            with open(path, "w") as f:
                f.write(json.dumps([cases[i] for i in shards[k]]))
            rc, out = tlc(module + ".tla", module + ".cfg", os.path.join(workdir, "tlc%d" % k), dict({"CASES": path}, **({"PLAIN": "yes"} if plain else {})), 1, timeout)
            os.remove(path)
            shutil.rmtree(os.path.join(workdir, "tlc%d" % k), ignore_errors=True)
            vs_ = {}
            for v in printed(out):
                if "verdict" in v:
                    i = shards[k][v["cid"] - 1]
                    if i in vs_:
                        raise ToolError("two verdicts for case %s" % v["id"])
                    vs_[i] = v
            m = STATS.search(out)
            if rc != 0 or not m or len(vs_) != len(shards[k]):
                with open(os.path.join(workdir, "tlc.out"), "w") as f:
                    f.write(out)
                tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")) and len(l) < 2000)
                raise ToolError("trace validation failed to run (%s, %d of %d verdicts):\n%s" % (rc, len(vs_), len(shards[k]), tail[-3000:]))
            results[k] = (vs_, int(m.group(1)), int(m.group(2)))
        except Exception as e:
            results[k] = e

    th = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    verdicts, gen, dist, acts = {}, 0, 0, {}
    for r in results:
        if isinstance(r, Exception):
            raise r
        verdicts.update(r[0])
        gen += r[1]
        dist += r[2]
    for v in verdicts.values():
        for a in v.get("acts", ()):
            acts[a] = acts.get(a, 0) + 1
    return verdicts, {"generated": gen, "distinct": dist, "actions": acts}
