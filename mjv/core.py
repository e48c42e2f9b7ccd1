"""Building blocks of the checks: statistics, generation from a Hypothesis-drawn tape, shrinking."""
import collections
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

REPO = os.environ.get("MJV_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_LIMIT_S = 150      # of processor time, so that a busy machine makes no difference
CASE_WALL_S = 600       # for a program that waits


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    """The check itself is wrong; never reported as a violation."""


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class limit:
    """Turns a hang of the code under test into a violation."""

    def __init__(self, seconds=CASE_LIMIT_S):
        self.s = seconds

    def __enter__(self):
        self.old = [signal.signal(n, _alarm) for n in (signal.SIGALRM, signal.SIGPROF)]
        signal.setitimer(signal.ITIMER_PROF, self.s)
        signal.alarm(max(CASE_WALL_S, 4 * self.s))

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        for n, old in zip((signal.SIGALRM, signal.SIGPROF), self.old):
            signal.signal(n, old)
        if et is Hang:
            raise Violation(f"no answer within {self.s} s of processor time")
        return False


def guarded(f, *args):
    """An exception that comes out of the code under test is a violation, any other a harness error."""
    try:
        return f(*args)
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        tb, inside = e.__traceback__, None
        while tb is not None:
            name = tb.tb_frame.f_code.co_filename
            if os.path.abspath(name).startswith(os.path.abspath(REPO) + os.sep):
                inside = f"{os.path.relpath(name, REPO)}:{tb.tb_lineno}"
            tb = tb.tb_next
        if inside is None:
            raise
        raise Violation(f"the code under test fails with {type(e).__name__}: {e} (at {inside})")


def fresh(f, *args):
    """f(*args) in a fork of this process, so that nothing it does is seen by anything else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                with limit():
                    out = ("ok", guarded(f, *args))
            except Violation as v:
                out = ("violation", v.msg)
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as o:
                pickle.dump(out, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the program is ended")
    kind, out = pickle.loads(data)
    if kind == "violation":
        raise Violation(out)
    if kind == "error":
        raise HarnessError(out)
    return out


def h64(obj):
    if not isinstance(obj, bytes):
        obj = json.dumps(obj, sort_keys=True, default=str).encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.classes = collections.Counter()
        self.samples = []

    def case(self, key, nontrivial, sample=None):
        """One evaluation; key identifies the case for distinctness."""
        self.evaluations += 1
        if nontrivial:
            self.hashes.add(h64(key))
            if sample is not None and len(self.samples) < 3:
                self.samples.append(sample() if callable(sample) else sample)

    def note(self, label, n=1):
        self.classes[label] += n

    def merge(self, o):
        self.evaluations += o.evaluations
        self.hashes |= o.hashes
        self.classes += o.classes
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)


class Check:
    id = None
    rule = ""
    assumptions = []
    quick = 100          # cases over all shards
    thorough = 1000
    shards = 8

    def setup(self):
        """Once per worker."""

    def shard(self, ctx):
        raise NotImplementedError

    def check_case(self, case, stats=None):
        """Raises Violation.  `case` is plain JSON."""
        raise NotImplementedError

    def smaller(self, case):
        """Candidates for shrinking, most promising first."""
        return ()

    def size(self, case):
        return len(json.dumps(case))


class Ctx:
    def __init__(self, check, tier, seed, shard, n_shards, cases):
        self.check, self.tier, self.seed = check, tier, seed
        self.shard, self.n_shards, self.cases = shard, n_shards, cases
        self.stats = Stats()
        self.found = []          # [(case, msg)]
        self.errors = []

    def my_cases(self):
        n, r = divmod(self.cases, self.n_shards)
        return n + (1 if self.shard < r else 0)

    def try_case(self, case, extra=None):
        """Runs one case; records a violation.  True if a violation was found."""
        try:
            with limit():
                if extra is None:
                    guarded(self.check.check_case, case, self.stats)
                else:
                    guarded(self.check.check_case, case, self.stats, extra)
        except Violation as v:
            self.found.append((case, v.msg))
            return True
        return False


def load_hypothesis():
    if HYP not in sys.path:
        sys.path.append(HYP)
    import hypothesis
    return hypothesis


def tapes(ctx, n, length, body):
    """Calls body(tape_bytes) for n tapes drawn by Hypothesis; body returns True to stop."""
    hypothesis = load_hypothesis()
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    state = {"stop": False, "err": None}

    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
    @hypothesis.seed(ctx.seed)
    @given(st.binary(min_size=length, max_size=length))
    def run(data):
        if state["stop"]:
            return
        try:
            state["stop"] = bool(body(data))
        except Exception as e:   # harness error: do not let Hypothesis replay it
            state["stop"], state["err"] = True, e

    run()
    if state["err"] is not None:
        raise state["err"]


def shrink(check, case, msg, budget_s):
    """Greedy: keep any smaller case that still violates the property."""
    end = time.time() + budget_s
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in check.smaller(case):
            if time.time() > end:
                break
            try:
                with limit():
                    guarded(check.check_case, cand)
            except Violation as v:
                if check.size(cand) < check.size(case):
                    case, msg, improved = cand, v.msg, True
                    break
            except Exception:
                continue
    return case, msg
