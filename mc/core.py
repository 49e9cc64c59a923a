"""Book-keeping shared by all explorers: states, transitions, traces, failures, evidence.

A check explores histories of the real code; every distinct canonical state is recorded with
``state``, every executed operation with ``step``, every complete history compared with the
reference model with ``trace``. ``fail(key, ...)`` records a disagreement; keys listed in
known-findings.txt are reported as KNOWN-FINDING, all others as VIOLATION.
"""
import contextlib, hashlib, json, math, multiprocessing, os, signal, sys, time, traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MC_OUT", HERE)          # evidence and replays
REPO = os.environ.get("AUXI_REPO", "/repo")
MAX_FAILS = int(os.environ.get("MC_MAX_FAILS", "12"))
CASE_CPU_S = 30.0

warnings.simplefilter("ignore")


class Enough(BaseException):
    """Raised when enough different violations have been collected."""


class Hang(BaseException):
    """One case used more CPU time than any case may."""


def _on_timer(signum, frame):
    raise Hang("no result after %gs of CPU time" % CASE_CPU_S)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).digest()


def close(a, b, rtol=1e-9, atol=1e-12):
    """Numerical equality that never passes on nan/None."""
    try:
        a = float(a); b = float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def allclose(xs, ys, rtol=1e-9, atol=1e-12):
    try:
        xs = list(xs); ys = list(ys)
    except TypeError:
        return False
    return len(xs) == len(ys) and all(close(x, y, rtol, atol) for x, y in zip(xs, ys))


def load_known(pid):
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


class Check:
    def __init__(self, pid, tier, only=None, sub=False):
        self.pid, self.tier, self.only, self.sub = pid, tier, only, sub
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.scratch = os.environ.get("MC_SCRATCH") or os.path.join(HERE, ".scratch")
        os.makedirs(self.scratch, exist_ok=True)
        self.known = load_known(pid)
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.fails = {}          # key -> (msg, case)
        self.known_hit = {}
        self.notes = {}
        self.caps = []
        self.level = "model_checking"
        self.exhaustive = True
        self.assumptions = []
        self.bounds = {}
        signal.signal(signal.SIGPROF, _on_timer)

    # -- counting -------------------------------------------------------------
    def state(self, canon):
        d = digest(canon)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, sample=None):
        self.traces += 1
        # keep samples from the start and then ever more sparsely
        if sample is not None and (self.traces & (self.traces - 1)) == 0 and len(self.samples) < 24:
            self.samples.append(sample)

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    # -- failing --------------------------------------------------------------
    def fail(self, key, msg, case):
        key = " ".join(str(key).split())
        if self.only is not None and key != self.only:
            return
        if key in self.known:
            self.known_hit.setdefault(key, (str(msg), case))
            return
        if key not in self.fails:
            self.fails[key] = (str(msg), case)
        if len(self.fails) >= MAX_FAILS:
            raise Enough()

    def expect(self, ok, key, msg, case):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg, case() if callable(case) else case)
        return ok

    def eq(self, got, want, key, case, rtol=1e-9, atol=1e-12, what=""):
        if isinstance(want, float) or isinstance(want, int) and not isinstance(want, bool):
            ok = close(got, want, rtol, atol)
        elif isinstance(want, (list, tuple)) and want and isinstance(want[0], float):
            ok = allclose(got, want, rtol, atol)
        else:
            ok = got == want
        if not ok:
            self.fail(key, "%s: expected %r, observed %r" % (what or key, want, got),
                      case() if callable(case) else case)
        return ok

    @contextlib.contextmanager
    def guard(self, key, case):
        """Everything the code under test raises inside is a failure of the property."""
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            yield
        except Enough:
            raise
        except Hang as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.fail(key + "/hang", str(e), case() if callable(case) else case)
        except (Exception, SystemExit) as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.fail("%s/%s" % (key, type(e).__name__), "unexpected exception:\n" + traceback.format_exc(),
                      case() if callable(case) else case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    # -- parallel exploration ---------------------------------------------------
    def parallel(self, func, items, procs=None):
        """Run func(subcheck, item) for every item on all cores and merge the results."""
        items = list(items)
        procs = procs or min(int(os.environ.get("MC_PROCS", "8")), os.cpu_count() or 1, max(1, len(items)))
        if procs <= 1 or len(items) <= 1:
            for it in items:
                func(self, it)
            return
        global _JOB
        _JOB = (self, func)
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs) as pool:
            for part in pool.imap_unordered(_work, items, chunksize=1):
                self.merge(part)

    def export(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=self.outcomes, samples=self.samples, fails=self.fails,
                    known=self.known_hit, caps=self.caps)

    def merge(self, d):
        self.states |= d["states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        for k, v in d["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for s in d["samples"]:
            if len(self.samples) < 24:
                self.samples.append(s)
        for k, v in d["known"].items():
            self.known_hit.setdefault(k, v)
        self.caps += d["caps"]
        for k, (m, c) in d["fails"].items():
            self.fail(k, m, c)

    # -- verdict ----------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        # vacuity: an exploration that explored nothing decides nothing
        if not self.fails and self.only is None and (self.traces == 0 or self.transitions == 0):
            self.fails["vacuous"] = ("nothing was explored", None)
        cov = dict(states=len(self.states), transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=[_jsonable(s) for s in self.samples[:24]] or ["none"],
                   distinct_outcomes=len(self.outcomes), outcomes=self.outcomes,
                   exhaustive=bool(self.exhaustive and not self.caps), bounds=self.bounds,
                   caps_hit=self.caps)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 3), violations=len(self.fails),
                  known_findings=sorted(self.known_hit))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        if self.only is None:
            with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
                json.dump(_jsonable(ev), f, indent=1)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known.get(k) or k))
        print("%s %s: states=%d transitions=%d histories=%d outcomes=%d wall=%.1fs"
              % (self.pid, self.tier, len(self.states), self.transitions, self.traces,
                 len(self.outcomes), wall))
        if not self.fails:
            return 0
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for i, (k, (m, c)) in enumerate(self.fails.items()):
            rp = os.path.join("replays", "%s-%d.json" % (self.pid, i + 1))
            with open(os.path.join(OUT, rp), "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, key=k, message=m, case=_jsonable(c),
                               rerun="./run.sh %s %s --only %r" % (self.pid, self.tier, k)), f, indent=1)
            print("  [%s] %s" % (k, str(m).strip()[-1500:]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
        return 1


_JOB = None


def _work(item):
    parent, func = _JOB
    sub = Check(parent.pid, parent.tier, only=parent.only, sub=True)
    try:
        func(sub, item)
    except Enough:
        pass
    except BaseException:
        try:
            sub.fail("exception", "unexpected exception while exploring: " + traceback.format_exc(), repr(item)[:2000])
        except Enough:
            pass
    return sub.export()


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    try:
        return float(x)
    except Exception:
        return repr(x)


def canon_num(x, sig=9):
    """Rounding used only to merge states whose futures differ by round-off."""
    try:
        x = float(x)
    except Exception:
        return repr(x)
    if x == 0 or not math.isfinite(x):
        return 0.0 if x == 0 else repr(x)
    return float("%.*g" % (sig, x))
