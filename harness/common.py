"""Shared machinery: TLC runner, trace/case plumbing, verdicts, evidence.

Every check is a function check(ctx).  A check
  * runs TLC on the specification itself (design level, all behaviours within
    small constants), and
  * binds it to /repo: either it lets TLC enumerate behaviours and replays
    them in the real code (ctx.generate + comparison), or it records what the
    real code did and lets TLC decide whether the specification allows it
    (ctx.judge).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN = 99999  # integer that stands for "not a number" inside TLA+ matrices


class MachineryError(Exception):
    pass


class CaseTimeout(Exception):
    pass


def time_limit(seconds):
    """No answer within this much CPU time (a loaded machine is no alarm), or,
    for code that waits instead of computing, six times that by the clock."""
    class _T:
        def __enter__(self):
            def h(s, f):
                raise CaseTimeout()
            self.old = [signal.signal(n, h) for n in (signal.SIGPROF, signal.SIGALRM)]
            signal.setitimer(signal.ITIMER_PROF, seconds)
            signal.setitimer(signal.ITIMER_REAL, max(6 * seconds, 60))

        def __exit__(self, *a):
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            for n, o in zip((signal.SIGPROF, signal.SIGALRM), self.old):
                signal.signal(n, o)
    return _T()


import multiprocessing as _mp
_timeouts = _mp.get_context("fork").Value("i", 0)


def observe(fn, *a, limit=100, **k):
    """Run the real code: ("ok", value) or ("err", exception class name, text).

    Once two calls got no answer at all, the others are not waited for as long."""
    if _timeouts.value >= 2:
        limit = min(limit, 3)
    try:
        with time_limit(limit), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("ok", fn(*a, **k))
    except CaseTimeout:
        with _timeouts.get_lock():
            _timeouts.value += 1
        return ("err", "Timeout", "no answer within %d s" % limit)
    except Exception as e:  # noqa
        mro = [c.__name__ for c in type(e).__mro__]
        if "ValueError" in mro:
            name = "ValueError"
        elif "TypeError" in mro:
            name = "TypeError"
        else:
            name = type(e).__name__
        return ("err", name, str(e)[:300] + " @" + _where(e))


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"


class replaced:
    """a library function replaced wherever scipy or lingam hold it under a name"""

    def __init__(self, real, fake, *modules):
        self.real, self.fake, self.mods = real, fake, modules

    def __enter__(self):
        mods = list(self.mods) + [m for k, m in list(sys.modules.items()) if m is not None and (k == "lingam" or k.startswith("lingam."))]
        self.at = [(m, k) for m in mods for k, v in list(vars(m).items()) if v is self.real]
        for m, k in self.at:
            setattr(m, k, self.fake)

    def __exit__(self, *a):
        for m, k in self.at:
            setattr(m, k, self.real)


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.findall(r"Invariant (\S+) is violated", out)

    def errs(self):
        lines = [l for l in self.out.splitlines()
                 if not re.match(r"(Parsing file|Semantic proc|<<\"(CASE|JUDGED))", l)]
        return "\n".join(lines)[:3500]

    def marked(self, tag):
        """Payloads of PrintT(<<"tag", ToJson(x)>>) lines."""
        res = []
        pre = '<<"%s", "' % tag
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('">>'):
                body = line[len(pre):-3]
                res.append(json.loads(json.loads('"' + body + '"')))
        return res


class Ctx:
    def __init__(self, pid, tier, seed):
        import numpy as np
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/tmp")
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.violations = []
        self.known_hits = []
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.tlc_runs = []
        self.known = json.load(open(os.path.join(ROOT, "known_findings.json")))["known"]

    # -- sizes -------------------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def subrng(self, *k):
        import numpy as np
        return np.random.default_rng([self.seed, int(self.pid[1:])] + list(k))

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, data=None, workers=8, deadlock=False, timeout=840,
            extra=(), env=None, count=True, name=None):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if data is not None:
            with open(os.path.join(d, "traces.json"), "w") as fh:
                json.dump(data, fh)
        with open(os.path.join(d, "M.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-nowarning", "-config", "M.cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
        r = TLCResult(p.stdout, p.returncode)
        r.dir = d
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.tlc_runs.append({"module": module, "name": name or module, "distinct": r.distinct,
                              "generated": r.generated, "wall_s": round(time.time() - t, 1)})
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    def design(self, module, cfg, name=None, **k):
        """Model-check the specification itself.  It does not depend on /repo, so
        anything but success is a fault of the machinery, not of the code."""
        r = self.tlc(module, cfg, name=name, **k)
        if not r.ok:
            raise MachineryError("design check %s failed:\n%s" % (name or module, r.errs()))
        return r

    def judge(self, module, cfg, traces, label, describe=None, **k):
        """Let TLC decide for every recorded execution whether the spec allows it.

        The trace spec prints <<"JUDGED", json>> with [id, bad] once per trace."""
        if not traces:
            return []
        for i, t in enumerate(traces):
            t["tid"] = i + 1
        r = self.tlc(module, cfg, data={"traces": traces}, name=label, **k)
        got = {}
        for v in r.marked("JUDGED"):
            got.setdefault(v["tid"], set()).update(v["bad"])
        if not r.ok and not r.violated or len(got) != len(traces):
            raise MachineryError("trace run %s: judged %d of %d\n%s" % (
                label, len(got), len(traces), r.errs()))
        self.traces += len(traces)
        bad = []
        for i, t in enumerate(traces):
            if got[i + 1]:
                bad.append((t, sorted(got[i + 1])))
                self.fail(label + ":" + ",".join(sorted(got[i + 1])),
                          {"clauses": sorted(got[i + 1]), "trace": t,
                           "describe": describe(t) if describe else None})
        return bad

    def generate(self, module, cfg, name=None, **k):
        """Behaviours enumerated by TLC from the spec, printed as <<"CASE", json>>."""
        r = self.design(module, cfg, name=name, **k)
        return r.marked("CASE")

    # -- verdicts ----------------------------------------------------------
    def fail(self, what, replay, key=None):
        for kf in self.known:
            if kf["property"] == self.pid and key is not None and kf["key"] == key:
                if kf["key"] not in [x["key"] for x in self.known_hits]:
                    self.known_hits.append(kf)
                return
        self.violations.append((what, replay))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self, level):
        os.makedirs(EVID, exist_ok=True)
        for kf in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["what"]))
        rep = os.path.join(EVID, "replay_%s.json" % self.pid)
        if os.path.exists(rep):
            os.remove(rep)
        if self.violations:
            with open(rep, "w") as fh:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:200]], fh,
                          default=str, indent=1)
            seen = set()
            for w, r in self.violations:
                if w not in seen and len(seen) < 20:
                    seen.add(w)
                    print("  failed:", w, json.dumps(r, default=str)[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": self.samples or [{"none": True}],
                                "tlc_runs": self.tlc_runs}, **self.cover),
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s seed=%d: states=%d traces=%d violations=%d known=%d (%.1fs)" % (
            self.pid, self.tier, self.seed, self.states, self.traces, len(self.violations),
            len(self.known_hits), time.time() - self.t0))
        return 1 if self.violations else 0


# -- conversions -------------------------------------------------------------
def imat(B):
    """float matrix with (near-)integer / NaN entries -> TLA+ matrix, or None."""
    import numpy as np
    res = []
    for row in np.asarray(B, dtype=float):
        r = []
        for v in row:
            if np.isnan(v):
                r.append(NAN)
            else:
                if abs(v - round(v)) > 1e-9 * max(1, abs(v)) or abs(v) > 2**30:
                    return None
                r.append(int(round(v)))
        res.append(r)
    return res


def smat(B, tol=0.0):
    """sign/pattern matrix: NAN for NaN, 1 for non-zero, 0 for zero."""
    import numpy as np
    return [[NAN if np.isnan(v) else (1 if abs(v) > tol else 0) for v in row]
            for row in np.asarray(B, dtype=float)]


def pmap(fn, items, procs=8, chunk=1):
    """Ordered parallel map in forked workers (real-code executions)."""
    import multiprocessing as mp
    items = list(items)
    if procs <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=chunk)
