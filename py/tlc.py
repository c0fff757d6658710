"""Runs TLC (model checking, behaviour generation, trace checking)."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    d = "/opt/veriftools/tla"
    jars = [JARS] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != "tla2tools.jar")
    return ":".join(jars)


class TlcError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression for a cfg file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise ValueError(v)


def cfg_text(consts, spec=None, invariants=(), properties=(), constraints=(), action_constraints=(), view=None,
             post=None, deadlock=False, init=None, nxt=None):
    out = []
    if spec:
        out.append("SPECIFICATION " + spec)
    if init:
        out += ["INIT " + init, "NEXT " + nxt]
    for k, v in consts.items():
        if isinstance(v, Sub):
            out.append("CONSTANT %s <- %s" % (k, v))
        else:
            out.append("CONSTANT %s = %s" % (k, tla(v)))
    for x in invariants:
        out.append("INVARIANT " + x)
    for x in properties:
        out.append("PROPERTY " + x)
    for x in constraints:
        out.append("CONSTRAINT " + x)
    for x in action_constraints:
        out.append("ACTION_CONSTRAINT " + x)
    if view:
        out.append("VIEW " + view)
    if post:
        out.append("POSTCONDITION " + post)
    out.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


class Sub(str):
    """A constant replaced by a definition."""


def run(module, cfg, args=(), env=None, timeout=600, heap="4g", workers="auto", stop=None):
    """Runs TLC in a scratch directory; returns (returncode, stdout).  A module "Gen(X)" or "Trace(X)"
    is the template of that name instantiated for specification X."""
    d = tempfile.mkdtemp(prefix="tlc.")
    try:
        path = os.path.join(SPEC, module + ".tla")
        m = re.match(r"(\w+)\((\w+)\)$", module)
        if m:
            path = os.path.join(d, m.group(1) + ".tla")
            with open(os.path.join(SPEC, "templates", m.group(1) + ".tla")) as f, open(path, "w") as o:
                o.write(f.read().replace("@X@", m.group(2)))
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d,
               "-DTLA-Library=" + SPEC, "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-config", os.path.join(d, "M.cfg")] + list(args) + [path]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
            return p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as t:
            return None, (t.stdout or b"").decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        pass
    depth = re.search(r"depth of the complete state graph search is (\d+)", out)
    r = {}
    if m:
        r["generated"] = int(m.group(1).replace(",", ""))
        r["distinct"] = int(m.group(2).replace(",", ""))
    if depth:
        r["depth"] = int(depth.group(1))
    return r


def check(module, cfg, **kw):
    """Model-checks; raises TlcError unless it completes without error."""
    t0 = time.time()
    rc, out = run(module, cfg, **kw)
    if rc != 0:
        i = out.find("Error:")
        raise TlcError("%s: rc=%s\n%s" % (module, rc, out[i:i + 6000] if i >= 0 else out[-2000:]))
    s = stats(out)
    s["seconds"] = round(time.time() - t0, 1)
    return s


def unjson(line):
    """A string TLC printed with PrintT -> the string."""
    return json.loads(line)


def behaviours(module, cfg, num, depth, seed, timeout=600, workers=1, heap="2g", tag="BEH "):
    """Simulates and returns the JSON objects the specification printed."""
    rc, out = run(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                  timeout=timeout, workers=workers, heap=heap)
    res = []
    for l in out.split("\n"):
        l = l.strip()
        if l.startswith('"' + tag):
            res.append(json.loads(json.loads(l)[len(tag):]))
    if not res:
        raise TlcError("%s produced no behaviours: rc=%s\n%s" % (module, rc, out[-6000:]))
    return res


def matched(module, cfg, traces, timeout=600, heap="4g", tag="MATCHED "):
    """Checks traces against the specification; returns matched prefix lengths.  A recording with a value that
    cannot even be compared with what the specification gives (of another kind than any it gives) stops TLC: it
    is searched for, and matches up to the step with that value."""
    try:
        return _matched(module, cfg, traces, timeout, heap, tag)
    except TlcError as x:
        if "Attempted to" not in str(x):
            raise
    found = [0]

    def fits(ts):
        try:
            return _matched(module, cfg, ts, timeout, heap, tag)[0]
        except TlcError as x:
            if "Attempted to" not in str(x):
                raise

    def search(ts):
        if found[0] >= 4:
            return [len(t["steps"]) for t in ts]    # enough of them: the rest is left undecided
        r = fits(ts)
        if r is not None:
            return r
        if len(ts) > 1:
            h = len(ts) // 2
            return search(ts[:h]) + search(ts[h:])
        lo, hi = 0, len(ts[0]["steps"]) - 1         # the first step that does not compare
        while lo < hi:
            mid = (lo + hi) // 2
            r = fits([dict(ts[0], steps=ts[0]["steps"][:mid + 1])])
            if r is None:
                hi = mid
            elif r[0] < mid + 1:
                return r
            else:
                lo = mid + 1
        found[0] += 1
        return [lo]
    h = max(1, len(traces) // 2)
    return search(traces[:h]) + search(traces[h:]), {}


def _matched(module, cfg, traces, timeout, heap, tag):
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        rc, out = run(module, cfg, env={"TRACES": path}, timeout=timeout, workers=1, heap=heap)
        for l in out.split("\n"):
            l = l.strip()
            if l.startswith('"' + tag):
                return json.loads(json.loads(l)[len(tag):]), stats(out)
        raise TlcError("%s gave no verdict: rc=%s\n%s" % (module, rc, out[-6000:]))
    finally:
        os.unlink(path)


def leaves(behs):
    """Drops behaviours that are prefixes of others."""
    keys = [(b["pre"], [json.dumps(s["ev"], sort_keys=True) for s in b["steps"]]) for b in behs]
    pre = set()
    for p, k in keys:
        for i in range(1, len(k)):
            pre.add((p, tuple(k[:i])))
    out, seen = [], set()
    for b, (p, k) in zip(behs, keys):
        t = (p, tuple(k))
        if t not in pre and t not in seen:
            seen.add(t)
            out.append(b)
    return out


def cover(module, cfg, timeout=300, heap="3g", tag="BEH "):
    """One behaviour per class of transitions (breadth first)."""
    rc, out = run(module, cfg, workers=1, timeout=timeout, heap=heap)
    res = [json.loads(json.loads(l)[len(tag):]) for l in out.split("\n") if l.startswith('"' + tag)]
    if rc != 0 or not res:
        i = out.find("Error:")
        raise TlcError("%s: rc=%s\n%s" % (module, rc, out[i:i + 3000] if i >= 0 else out[-2000:]))
    return leaves(res), len(res), stats(out)
