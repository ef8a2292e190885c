"""Core of the harness: sub-checks, case execution, Hypothesis driving, evidence data.

A sub-check is a pair (strategy of JSON cases, run(case, ctx)).  `run` raises
Violation when the property is broken for that case and returns otherwise.
"""
import errno
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

REPO = "/repo"
CASE_LIMIT_S = 60
ENVIRONMENT = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT)


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """A case ran far beyond any reasonable time."""


class HarnessError(Exception):
    """The harness itself is broken: never reported as a violation."""


class Ctx(object):
    """Per-case context: scratch directory, labels, non-triviality."""

    def __init__(self, root, tier):
        self.root = root            # shard scratch directory
        self.tier = tier
        self.labels = {}
        self._n = 0
        self._dir = None
        self.interesting = False
        self._cleanups = []

    # -- used by run() -----------------------------------------------------
    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self):
        self.interesting = True

    def defer(self, fn):
        """Call fn after the case, whatever happens."""
        self._cleanups.append(fn)

    def dir(self):
        """A fresh directory of this case."""
        if self._dir is None:
            self._n += 1
            self._dir = os.path.join(self.root, "c%d" % self._n)
            os.mkdir(self._dir)
        return self._dir

    def dir2(self):
        """A fresh directory of this case on another file system, or None."""
        top = os.environ.get("SECOND")
        if not top or os.stat(top).st_dev == os.stat(self.root).st_dev:
            return None
        d = tempfile.mkdtemp(dir=top)
        self.defer(lambda: wipe(d))
        return d

    # -- used by the driver ------------------------------------------------
    def begin(self):
        self.interesting = False
        self._dir = None
        self._cleanups = []

    def end(self):
        while self._cleanups:
            self._cleanups.pop()()
        os.chdir(self.root)
        if self._dir is not None:
            wipe(self._dir)
            self._dir = None


def wipe(path):
    """Remove a scratch tree without following links (never uses code under test)."""
    assert path.startswith(("/dev/shm/", "/tmp/")), path
    try:
        _wipe(path)
    except (OSError, RecursionError):
        # a tree too deep for full paths, or shut directories
        subprocess.call(["chmod", "-R", "u+rwx", "--", path], stderr=subprocess.DEVNULL)
        subprocess.call(["rm", "-rf", "--", path], stderr=subprocess.DEVNULL)
        if os.path.lexists(path):
            raise


def _wipe(path):
    for dirpath, dirnames, filenames in os.walk(path, topdown=False, followlinks=False):
        for n in filenames:
            os.unlink(os.path.join(dirpath, n))
        for n in dirnames:
            p = os.path.join(dirpath, n)
            if os.path.islink(p):
                os.unlink(p)
            else:
                try:
                    os.rmdir(p)
                except PermissionError:
                    os.chmod(dirpath, 0o700)
                    os.rmdir(p)
    os.rmdir(path)


class Check(object):
    def __init__(self, name, strategy, run, quick, thorough, rule, shrink=True):
        self.name = name
        self.strategy = strategy      # callable(tier) -> SearchStrategy of JSON values
        self.run = run                # run(case, ctx)
        self.quick = quick            # number of examples over all shards
        self.thorough = thorough
        self.rule = rule              # what makes a case non-trivial
        self.shrink = shrink


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/abl"):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang()


def execute(check, case, ctx):
    """Run one case.  Raises Violation, Hang or HarnessError."""
    ctx.begin()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        try:
            check.run(case, ctx)
        except Violation:
            raise
        except Hang:
            raise
        except Exception as e:
            if _from_repo(e.__traceback__):
                last = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation("unexpected %s: %s (at %s:%s)" % (
                    type(e).__name__, e, last.filename, last.name)) from e
            if isinstance(e, MemoryError) or getattr(e, "errno", None) in ENVIRONMENT:
                raise HarnessError("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())) from e
            # the oracle could not make sense of what the code answered
            raise Violation("answer of an unexpected form: %s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc()[-1500:])) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        try:
            ctx.end()
        except OSError as e:
            raise HarnessError("clean-up failed: %s" % e)


class ShardResult(object):
    def __init__(self):
        self.evaluations = 0
        self.distinct = {}        # sub-check -> set of keys of non-trivial cases
        self.samples = {}
        self.labels = {}
        self.violation = None     # dict(check, case, message)
        self.error = None
        self.per_check = {}
        self.findings = []

    def as_json(self):
        return dict(evaluations=self.evaluations,
                    distinct={k: sorted(v) for k, v in self.distinct.items()},
                    samples=self.samples, labels=self.labels,
                    violation=self.violation, error=self.error,
                    per_check=self.per_check, findings=self.findings)


def run_one(check, case, ctx, res):
    res.evaluations += 1
    res.per_check[check.name] = res.per_check.get(check.name, 0) + 1
    execute(check, case, ctx)
    if ctx.interesting:
        k = case_key(case)
        s = res.distinct.setdefault(check.name, set())
        if k not in s:
            s.add(k)
            sm = res.samples.setdefault(check.name, [])
            if len(sm) < 3 and len(s) > 2:
                sm.append(case)


def drive(check, count, seed, ctx, res):
    """Search one sub-check with Hypothesis; fills res.violation on a failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {}

    def body(case):
        try:
            run_one(check, case, ctx, res)
        except Violation as v:
            state["case"], state["msg"] = case, str(v)
            raise
        except Hang:
            state["case"], state["msg"] = case, "no answer within %d s" % CASE_LIMIT_S
            raise

    phases = [Phase.generate] + ([Phase.shrink] if check.shrink else [])
    test = settings(max_examples=max(1, count), deadline=None, database=None, derandomize=False,
                    phases=phases, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck))(
        given(check.strategy(ctx.tier))(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except HarnessError as e:
        res.error = "%s: %s" % (check.name, e)
    except (Violation, Hang):
        reduce_ops(check, state, ctx)
        res.violation = dict(check=check.name, case=state["case"], message=state["msg"])
    except hypothesis.errors.Flaky as e:
        if "case" in state:
            res.violation = dict(check=check.name, case=state["case"],
                                 message=state["msg"] + " [not on every run of the same case]")
        else:
            res.error = "%s: flaky: %s" % (check.name, e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        res.error = "%s: %s" % (check.name, traceback.format_exc())


def reduce_ops(check, state, ctx):
    """Drop operations of a failing history that are not needed (below the generator's minimum)."""
    case = state["case"]
    if not check.shrink or not isinstance(case, dict) or not isinstance(case.get("ops"), list):
        return
    end = time.time() + 20
    k = 0
    while k < len(case["ops"]) and time.time() < end:
        less = dict(case, ops=case["ops"][:k] + case["ops"][k + 1:])
        try:
            execute(check, less, ctx)
            k += 1
        except Violation as v:
            case = less
            state["case"], state["msg"] = case, str(v)
        except BaseException:
            return


# --------------------------------------------------------------------------
# helpers for run() functions

def outcome(fn, *args, **kw):
    """('ok', value) or ('err', exception); keeps BaseExceptions like Hang flying."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as e:
        return ("err", e)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, msg, *args):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (
            (msg % args) if args else msg, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def b(s):
    """bytes of a JSON data string (latin-1)."""
    return s.encode("latin-1")
