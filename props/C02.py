"""C02: idle backends are closed exactly once and active ones are kept."""
import contextlib
import io
import json
import os
import subprocess
import sys
import threading
import time

from hypothesis import strategies as st

from vh import probe
from vh.core import Check, need, outcome, same

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs

T = 1000.0
ERRORS = dict(none=None, runtime=RuntimeError("close"), os=OSError(5, "close"),
              value=ValueError("x"), key=KeyError("k"), stop=StopIteration())

# every operation of a path
USES = {
    "exists": lambda u: u.exists(), "isfile": lambda u: u.isfile(), "isdir": lambda u: u.isdir(),
    "islink": lambda u: u.islink(), "readlink": lambda u: u.readlink(),
    "symlink": lambda u: u.symlink(u / "l"), "isexec": lambda u: u.isexec(),
    "set_exec": lambda u: u.set_exec(0o100), "open": lambda u: u.open("rb"),
    "listdir": lambda u: u.listdir(), "mkdir": lambda u: u.mkdir(),
    "makedirs": lambda u: u.makedirs(), "remove": lambda u: u.remove(),
    "removetree": lambda u: u.remove(recursive=True), "copy": lambda u: u.copy(u / "x"),
    "move": lambda u: u.move(u / "x"), "copystat": lambda u: u.copystat(u / "x"),
    "mtime": lambda u: u.mtime(), "walk": lambda u: u.walk(), "info": lambda u: u.info(),
    "setinfo": lambda u: u.info(set_info=dict(mode=0o600)),
    "glob": lambda u: u.glob("*"), "md5": lambda u: u.md5(), "lock": lambda u: u.lock(),
    "sync": lambda u: u.sync(u / "x"), "_manipulate": lambda u: u._manipulate(x=1),
    "switch": lambda u: u.switch("b"), "update": lambda u: u.update(), "log": lambda u: u.log(),
    "log_by_time": lambda u: u.log_by_time(),
}
vfs.SCHEME_REGISTRY["ca"] = vfs.RevisionedUri


class Unlisted(Exception):
    """An error of the backend itself."""


def quiet(fn, *args):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*args)


class Model(object):
    """The backends that are open and how long ago each was used."""

    def __init__(self, reg):
        self.reg = reg
        self.age = {}         # name -> seconds since last use
        self.inst = {}        # name -> instance
        self.closed = []      # every instance closed, in no particular order
        self.dropped = set()

    def check(self, what):
        got = sorted(id(x) for x in probe.LOG.closed)
        want = sorted(id(x) for x in self.closed)
        need(got == want, "%s: backends closed: %s, expected: %s", what,
             self.names(probe.LOG.closed), self.names(self.closed))

    def names(self, insts):
        return sorted("%s (created as number %d)" % (i.hostname, [c[3] for c in
                      probe.LOG.created].index(i) + 1) for i in insts)

    def reached(self, name, conn, what):
        """A backend answered for this name."""
        if name in self.inst:
            need(conn is self.inst[name], "%s reaches another backend although its own is open", what)
        else:
            need(not any(conn is c for c in self.closed), "%s reaches a closed backend", what)
            need(not any(conn is c for c in self.inst.values()), "%s reaches the backend of another", what)
            self.inst[name] = conn
        self.age[name] = 0.0

    def pass_time(self, name, dt):
        self.age[name] += dt
        self.inst[name].last_used -= dt

    def near(self):
        return any(abs(a - T) < 60 for a in self.age.values())

    def cleanup(self, force, what):
        gone = [n for n, a in self.age.items() if force or a > T]
        for n in gone:
            del self.age[n]
            self.closed.append(self.inst.pop(n))
            self.dropped.add(n)
        self.check(what)
        return len(gone)


def history(case, ctx):
    probe.reset()
    reg = probe.REG
    reg.cleanup(force=True)
    probe.reset()
    old = reg.clean_timeout

    def restore():
        reg.clean_timeout = old
        for *_, inst in probe.LOG.created:
            inst.close_error = None
            inst.last_used = 0
        reg.cleanup(force=True)
        reg.schemes.pop("ca", None)
    ctx.defer(restore)
    reg.clean_timeout = T
    reg.register("ca", probe.factory("ca"))
    m = Model(reg)
    uris = {}
    kept = closed = again = 0
    for op in case["ops"]:
        name = "h%d" % (op[1] % 4)
        what = "after %s" % op
        if op[0] == "use":
            _, _, use, fresh, fails = op
            if fresh or name not in uris:
                uris[name] = URI("ca://%s/p" % name)
            u = uris[name]
            if fails and name in m.inst:
                m.inst[name].op_error = Unlisted()
                kind, val = outcome(USES[use], u)
                m.inst[name].op_error = None
                need(kind == "err" and isinstance(val, Unlisted), "%s on a failing backend gives %r",
                     use, val)
            else:
                USES[use](u)
            if name in m.dropped and name not in m.inst:
                again += 1
            before = m.age.get(name, 0)
            m.reached(name, u.connection, "%s on %s" % (use, u))
            if before > 0:
                ctx.label("use " + use)
            m.check(what)
        elif op[0] == "time":
            # whole steps, so that an age is never next to the limit
            for n in list(m.age):
                m.pass_time(n, T * op[2])
        elif op[0] == "age":
            if name in m.inst:
                m.pass_time(name, T * op[2])
        elif op[0] == "break":
            if name in m.inst:
                m.inst[name].close_error = ERRORS[op[2]]
        elif op[0] == "clean":
            if m.near():
                continue
            n = len(m.inst)
            quiet(reg.cleanup)
            k = m.cleanup(False, what)
            closed += k
            if k and k < n:
                kept += 1
        elif op[0] == "force":
            quiet(reg.cleanup, True)
            closed += m.cleanup(True, what)
    for name in sorted(m.inst):
        need(URI("ca://%s/p" % name).get_connection() is m.inst[name], "%s lost its backend", name)
    same(len(probe.LOG.created), len(m.closed) + len(m.inst), "number of backends created")
    if closed and (kept or again):
        ctx.nontrivial()


USE = st.sampled_from(sorted(USES))


def histories(tier):
    n = st.integers(0, 3)
    dt = st.sampled_from([0.3, 0.45, 0.8, 1.2, 1.2, 5.0])
    # the clock may have been set back since
    age = st.sampled_from([0.3, 0.45, 0.8, 1.2, 1.2, 5.0, -0.4, -3.0])
    op = st.one_of(
        *[st.tuples(st.just("use"), n, USE, st.booleans(),
                    st.sampled_from([False, False, True])).map(list)] * 5,
        *[st.tuples(st.just("time"), n, dt).map(list)] * 2,
        *[st.tuples(st.just("age"), n, age).map(list)] * 2,
        st.tuples(st.just("break"), n, st.sampled_from(sorted(ERRORS))).map(list),
        *[st.just(["clean", 0])] * 2,
        st.just(["force", 0]))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=8, max_size=30)))


def use_counts(case, ctx):
    """One operation between two long pauses keeps the backend."""
    ops = []
    for use, fresh, fails in case["uses"]:
        ops += [["use", 0, use, fresh, fails], ["time", 0, 0.8], ["use", 0, use, fresh, fails],
                ["time", 0, 0.8], ["clean", 0]]
    history(dict(ops=ops), ctx)
    ctx.nontrivial()


def uses(tier):
    return st.fixed_dictionaries(dict(uses=st.lists(
        st.tuples(USE, st.booleans(), st.booleans()).map(list), min_size=3, max_size=6)))


# -- shutdown and the background cleaner, with registries of their own ----------

def own(case, ctx, interval):
    probe.reset()
    reg = vfs.ConnectionRegistry(clean_interval=interval, clean_timeout=T)

    def stop():
        reg.run_clean_thread = False
    ctx.defer(stop)
    reg.register("own", probe.factory("own"))
    insts = []
    for i, (age, err) in enumerate(case["conns"]):
        c = reg.get_connection(scheme="own", hostname="h%d" % i)
        c.close_error = ERRORS[err]
        insts.append(c)
    return reg, insts


def shutdown(case, ctx):
    reg, insts = own(case, ctx, 100000)
    for c, (age, err) in zip(insts, case["conns"]):
        c.last_used -= age * T
    if case["clean"]:
        quiet(reg.cleanup)
        want = [id(c) for c, (age, err) in zip(insts, case["conns"]) if age > 1]
        same(sorted(id(c) for c in probe.LOG.closed), sorted(want), "closed by the clean-up")
    if case["again"]:
        # dropped ones come back as new ones
        for i in range(len(insts)):
            c = reg.get_connection(scheme="own", hostname="h%d" % i)
            if not any(c is x for x in insts):
                need(any(insts[i] is x for x in probe.LOG.closed), "an open backend was replaced")
                insts.append(c)
    quiet(reg.shutdown)
    same(sorted(id(c) for c in probe.LOG.closed), sorted(map(id, insts)),
         "backends closed by a shutdown (each once)")
    need(not reg.cleaner_thread.is_alive(), "the cleaner still runs after the shutdown")
    quiet(reg.shutdown)
    same(len(probe.LOG.closed), len(insts), "closings after a second shutdown")
    if len(insts) > 1:
        ctx.nontrivial()


class During(probe.Probe):
    """A backend whose closing takes so long that something else happens meanwhile."""

    def close(self):
        act, self.during = getattr(self, "during", None), None
        if act:
            act()
        probe.Probe.close(self)


def overlap(case, ctx):
    """A pass that begins while another one is at work: every backend is closed by one of them."""
    probe.reset()
    reg = vfs.ConnectionRegistry(clean_interval=100000, clean_timeout=T)

    def stop():
        reg.run_clean_thread = False
    ctx.defer(stop)
    reg.register("own", probe.factory("own", cls=During))
    insts, again, problems, running = [], [], [], []
    passes = dict(clean=reg.cleanup, force=lambda: reg.cleanup(force=True), shutdown=reg.shutdown)

    def do(what):
        try:
            passes[what]()
        except Exception as e:
            problems.append("%s: %r" % (what, e))

    def action(i, what):
        def run():
            running.append(None)
            if what == "use":
                # another backend of the program, in use at this moment
                c = reg.get_connection(scheme="own", hostname="new%d" % i)
                c.last_used = time.time()
                again.append(c)
            else:
                t = threading.Thread(target=do, args=(what,), daemon=True)
                t.start()
                # it may have to wait until the closing is over
                t.join(0.2)
                running.append(t)
        return run

    for i, (age, err, what) in enumerate(case["conns"]):
        c = reg.get_connection(scheme="own", hostname="h%d" % i)
        c.close_error = ERRORS[err]
        c.last_used -= age * T
        if what:
            c.during = action(i, what)
        insts.append(c)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        do(case["first"])
        for t in filter(None, running):
            t.join(40)
            need(not t.is_alive(), "a clean-up does not end")
    need(not problems, "a clean-up fails while another one is at work: %s", problems)
    for c in insts:
        c.during = None
    all_ = case["first"] != "clean" or any(
        w in ("force", "shutdown") and a > 1 for a, _, w in case["conns"])
    want = [c for c, (age, *_) in zip(insts, case["conns"]) if age > 1 or all_]
    closed = [id(c) for c in probe.LOG.closed]
    same(sorted(k for k in closed if k not in set(map(id, again))), sorted(map(id, want)),
         "backends closed by passes that overlap (each once)")
    need(all(closed.count(id(c)) <= 1 for c in again), "a backend is closed twice")
    for i, c in enumerate(insts):
        kept = reg.get_connection(scheme="own", hostname="h%d" % i) is c
        need(kept == (c not in want), "backend %d is %s after the clean-up", i,
             "kept" if kept else "dropped")
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        reg.cleanup(force=True)
    closed = [id(c) for c in probe.LOG.closed]
    same(sorted(closed), sorted(id(x[3]) for x in probe.LOG.created),
         "backends closed in the end (each once)")
    if len(want) > 1 and running:
        ctx.nontrivial()


def overlaps(tier):
    conn = st.tuples(st.sampled_from([0.0, 0.5, 1.5, 4.0]), st.sampled_from(["none"] * 3 + sorted(ERRORS)),
                     st.sampled_from([None, None, None, "clean", "force", "force", "shutdown",
                                      "use"])).map(list)
    return st.fixed_dictionaries(dict(conns=st.lists(conn, min_size=2, max_size=5),
                                      first=st.sampled_from(["clean", "clean", "force", "shutdown"])))


def wait(cond):
    end = time.time() + 40
    while time.time() < end:
        if cond():
            return True
        time.sleep(0.05)
    return False


def cleaner(case, ctx):
    # the interval is a second at most: the cleaner sleeps in steps of one second
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        reg, insts = own(case, ctx, 0.05)
        old = []
        for c, (age, err) in zip(insts, case["conns"]):
            if age > 1:
                old.append(c)
        for c in old:
            c.last_used -= 3 * T
        need(wait(lambda: len(probe.LOG.closed) >= len(old)),
             "the cleaner closed %d of %d idle backends in 40 s", len(probe.LOG.closed), len(old))
        # a second round
        rest = [c for c in insts if c not in old]
        late = rest[:1]
        for c in late:
            c.last_used -= 3 * T
        need(wait(lambda: len(probe.LOG.closed) >= len(old) + len(late)),
             "the cleaner did not close a backend that became idle later")
        need(wait(lambda: len(reg.connections) <= len(insts) - len(old) - len(late)),
             "the cleaner did not forget the closed backends")
        same(sorted(id(c) for c in probe.LOG.closed), sorted(id(c) for c in old + late),
             "backends closed by the cleaner (each once)")
        for i, c in enumerate(insts):
            again = reg.get_connection(scheme="own", hostname="h%d" % i)
            need((again is c) == (c in rest[1:]), "backend %d after the cleaner", i)
        reg.shutdown()
        need(not reg.cleaner_thread.is_alive(), "the cleaner still runs after the shutdown")
    if old and late:
        ctx.nontrivial()


def registries(tier):
    conn = st.tuples(st.sampled_from([0.0, 0.5, 1.5, 4.0]), st.sampled_from(sorted(ERRORS))).map(list)
    return st.fixed_dictionaries(dict(conns=st.lists(conn, min_size=2, max_size=6),
                                      clean=st.booleans(), again=st.booleans()))


# -- the end of the program -------------------------------------------------------

PROGRAM = """
import json, os, sys, threading
from abl.vpath.base import URI
from abl.vpath.base import fs
case = json.loads(sys.argv[1])
out = os.open(sys.argv[2], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
count = [0]

class Backend(fs.FileSystem):
    scheme = "end"
    def _initialize(self):
        count[0] += 1
        self.n = count[0]
        os.write(out, b"made %d\\n" % self.n)
    def close(self):
        os.write(out, b"closed %d\\n" % self.n)
        err = dict(none=None, runtime=RuntimeError("x"), os=OSError(5, "x"), key=KeyError("k"),
                   stop=StopIteration(), value=ValueError("x"))[self.extras.get("err", "none")]
        if err is not None:
            raise err
    def exists(self, path):
        return True

fs.CONNECTION_REGISTRY.register("end", Backend)
for i, (_, err) in enumerate(case["conns"]):
    assert URI("end://h%d/p?err=%s" % (i, err)).exists()
if case["clean"]:
    URI("memory:///d").mkdir()
if case["again"]:
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    assert URI("end://h0/p?err=%s" % case["conns"][0][1]).exists()
os.write(out, b"end\\n")
if case["how"] == "exit":
    sys.exit(3)
if case["how"] == "error":
    raise SystemError("the program fails")
if case["how"] == "thread":
    t = threading.Thread(target=lambda: os.write(out, b"thread\\n"))
    t.start()
"""


def program(case, ctx):
    d = ctx.dir()
    log = os.path.join(d, "log")
    env = dict(os.environ, PYTHONPATH="/repo", HOME=d)
    p = subprocess.run([sys.executable, "-c", PROGRAM, json.dumps(case), log], env=env,
                       cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    want = dict(end=0, thread=0, exit=3, error=1)[case["how"]]
    same(p.returncode, want, "exit status of the program (%s)", p.stderr[-300:])
    lines = open(log).read().split("\n")
    made = sorted(x.split()[1] for x in lines if x.startswith("made"))
    closed = sorted(x.split()[1] for x in lines if x.startswith("closed"))
    same(len(made), len(case["conns"]) + (1 if case["again"] else 0), "backends created by the program")
    same(closed, made, "backends closed when the program ends (each once)")
    ctx.nontrivial()


def programs(tier):
    conn = st.tuples(st.just(0), st.sampled_from(["none", "none"] + sorted(ERRORS))).map(list)
    return st.fixed_dictionaries(dict(conns=st.lists(conn, min_size=1, max_size=4), clean=st.booleans(),
                                      again=st.booleans(),
                                      how=st.sampled_from(["end", "exit", "error", "thread"])))


def many(case, ctx):
    """Many backends, some of them idle."""
    probe.reset()
    reg = probe.REG
    reg.cleanup(force=True)
    probe.reset()
    old = reg.clean_timeout

    def restore():
        reg.clean_timeout = old
        for *_, inst in probe.LOG.created:
            inst.close_error = None
            inst.last_used = 0
        reg.cleanup(force=True)
        reg.schemes.pop("ca", None)
    ctx.defer(restore)
    reg.clean_timeout = T
    reg.register("ca", probe.factory("ca"))
    n = case["n"]
    insts = [URI("ca://h%d/" % i).get_connection() for i in range(n)]
    idle = []
    for i, inst in enumerate(insts):
        if i % case["step"] in case["idle"]:
            inst.last_used -= 3 * T
            idle.append(inst)
            if i % 7 == case["bad"]:
                inst.close_error = RuntimeError("close")
    quiet(reg.cleanup)
    same(sorted(map(id, probe.LOG.closed)), sorted(map(id, idle)), "backends closed of %d", n)
    for i, inst in enumerate(insts):
        conn = URI("ca://h%d/" % i).get_connection()
        need((conn is inst) == (inst not in idle), "backend %d of %d after a clean-up", i, n)
    quiet(reg.cleanup, True)
    same(sorted(map(id, probe.LOG.closed)), sorted(map(id, [c[3] for c in probe.LOG.created])),
         "backends closed by a forced clean-up")
    same(reg.connections, {}, "backends left after a forced clean-up")
    if 0 < len(idle) < n:
        ctx.nontrivial()


CHECKS = [
    Check("histories", histories, history, 6000, 200000,
          rule="a backend was closed, and another one kept by the same clean-up or the closed "
               "one created again"),
    Check("uses", uses, use_counts, 800, 20000, rule="every case: operations far apart in time"),
    Check("overlap", overlaps, overlap, 160, 3000,
          rule="a pass begins while another one closes one of at least two backends"),
    Check("shutdown", registries, shutdown, 24, 400, shrink=False,
          rule="the registry has at least two backends"),
    Check("cleaner", registries, cleaner, 16, 160, shrink=False,
          rule="the cleaner closed idle backends in at least two rounds"),
    Check("program", programs, program, 16, 160, shrink=False,
          rule="every case: a program that ends with open backends"),
    Check("many", lambda t: st.fixed_dictionaries(dict(
        n=st.integers(2, 800), step=st.integers(1, 6), idle=st.lists(st.integers(0, 5), max_size=3, unique=True),
        bad=st.integers(0, 9))), many, 60, 1000, rule="some but not all backends are idle"),
]
