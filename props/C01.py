"""C01: one backend instance per distinct address."""
import sys
import threading
import time

from hypothesis import strategies as st

from vh import probe, uris
from vh.core import Check, need, outcome, same

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs
from abl.vpath.base.exceptions import NoSchemeError

KNOWN = ["pa", "pb", "http", "x-y", "https", "httpd"]
# their query belongs to the address of the page
WEB = ["http", "https"]
UNKNOWN = ["nope", "pa+ssh"]
ARGS = ("hostname", "port", "username", "password", "vpath_connector")
DEEP = ["/", "/a", "/a/b c", "/a/", "/%20"]


def key(a):
    """The identity of an address."""
    opts = dict(map(tuple, a["opts"]))
    return (a["scheme"], a["host"], a["port"], a["user"], a["password"], a["connector"],
            frozenset(opts.items()))


def make(a, form, path):
    """A URI for the address; form decides where its options and credentials are written."""
    p = dict(scheme=a["scheme"], user=a["user"], password=a["password"], host=a["host"],
             port=a["port"], connector=a["connector"], path=path, query=[], fragment=None)
    kw = {}
    opts = list(a["opts"])
    if form & 1:
        opts.reverse()
    for i, (k, v) in enumerate(opts):
        if isinstance(v, str) and a["scheme"] not in WEB and (form >> 1) % 3 != i:
            p["query"].append([k, v])
        else:
            kw[k] = v
    if a["scheme"] in WEB and form & 2:
        # the query of a web address is no option
        p["query"].append(["page", str(form)])
    if form & 4 or a["host"] is None or a["user"] is None:
        # some of them cannot be written in the address
        for name, field in (("username", "user"), ("password", "password")):
            if p[field] is not None:
                kw[name] = p[field]
        p["user"] = p["password"] = None
    return uris.text(p), kw


class Fallible(object):
    """A factory that can be told to fail the next time."""

    def __init__(self, label):
        self.inner = probe.factory(label)
        self.armed = False

    def __call__(self, *args, **kw):
        if self.armed:
            self.armed = False
            raise probe.FactoryError("told to fail")
        return self.inner(*args, **kw)


def run(case, ctx):
    probe.reset()
    reg = probe.REG
    reg.cleanup(force=True)
    # only the probes of this case are logged
    probe.reset()
    before = dict(reg.schemes)

    def restore():
        reg.cleanup(force=True)
        reg.schemes.clear()
        reg.schemes.update(before)
    ctx.defer(restore)
    current = {}
    for s in KNOWN:
        current[s] = Fallible(s + "#0")
        reg.register(s, current[s])
    for s in UNKNOWN:
        reg.schemes.pop(s, None)
    live = {}           # key -> (instance, label)
    closed = []
    seen = set()
    held = []
    created = 0
    hits = 0

    def check_log():
        same(len(probe.LOG.created), created, "number of backends created")
        same([id(x) for x in probe.LOG.closed], [id(x) for x in closed], "backends closed")

    for op in case["ops"]:
        name = op[0]
        if name == "get":
            _, n, form, path, via = op
            a = case["pool"][n % len(case["pool"])]
            text, kw = make(a, form, DEEP[path])
            k = key(a)
            what = "%r with %r" % (text, kw)

            def ask():
                if via == "registry":
                    d = dict(map(tuple, a["opts"]))
                    u = URI(text, **kw)
                    for arg in ARGS:
                        d[arg] = getattr(u, arg)
                    return reg.get_connection(scheme=a["scheme"], **d)
                u = URI(text, **kw)
                if via == "derived":
                    u = (u / "x").directory() / "y"
                if via == "copied":
                    u = URI(u)
                if via == "operation":
                    u.exists()
                    return u.connection
                if via == "old":
                    # the same object as before, if there is one
                    for hk, hu in held:
                        if hk == k:
                            return hu.get_connection()
                held.append((k, u))
                return u.get_connection()
            if a["scheme"] in UNKNOWN:
                kind, val = outcome(ask)
                need(kind == "err" and isinstance(val, NoSchemeError),
                     "using %s, whose scheme is not registered, gives %r", what, val)
                check_log()
                ctx.label("unknown scheme")
                continue
            fac = current[a["scheme"]]
            if k not in live and fac.armed:
                kind, val = outcome(ask)
                need(kind == "err" and isinstance(val, probe.FactoryError),
                     "using %s, whose factory fails, gives %r", what, val)
                check_log()
                ctx.label("failing factory")
                continue
            got = ask()
            if k in live:
                hits += 1
                need(got is live[k], "%s reaches another backend than the same address before", what)
            else:
                created += 1
                check_log()
                label, args, kwargs, inst = probe.LOG.created[-1]
                need(got is inst, "%s does not reach the backend created for it", what)
                same(label, fac.inner.label, "factory used for %s", what)
                vals, extras = probe.norm(args, kwargs)
                same(vals, dict(hostname=a["host"], port=a["port"], username=a["user"],
                                password=a["password"], vpath_connector=a["connector"]),
                     "address given to the backend of %s", what)
                same(extras, dict(map(tuple, a["opts"])), "options given to the backend of %s", what)
                for k2, other in live.items():
                    need(other is not got, "%s and %r share a backend", what, k2)
                live[k] = got
                ctx.label("created again" if k in seen else "created")
                seen.add(k)
            check_log()
        elif name == "register":
            s = KNOWN[op[1] % len(KNOWN)]
            current[s] = Fallible("%s#%d" % (s, op[2] + 1))
            reg.register(s, current[s])
            check_log()
        elif name == "arm":
            current[KNOWN[op[1] % len(KNOWN)]].armed = True
        elif name == "drop":
            n = len(closed)
            reg.cleanup(force=True)
            same(sorted(map(id, probe.LOG.closed[n:])), sorted(id(c) for c in live.values()),
                 "backends closed by a forced clean-up")
            closed[:] = probe.LOG.closed
            live.clear()
        elif name == "forget":
            # one of them was not used for a long time
            if live:
                k = sorted(live, key=repr)[op[1] % len(live)]
                c = live.pop(k)
                c.last_used = 0
                reg.cleanup()
                closed.append(c)
                check_log()
    for k, c in live.items():
        a = [a for a in case["pool"] if key(a) == k][0]
        text, kw = make(a, 0, "/")
        need(URI(text, **kw).get_connection() is c, "%r lost its backend", text)
    check_log()
    if hits and len(seen) > 1:
        ctx.nontrivial()


OPTS = st.sampled_from([["k", "v"], ["k", "w"], ["l", "v"], ["k", "2"], ["k", 2], ["l", 3],
                        ["m", ""], ["m", "a b&c"]])
FIELDS = dict(
    scheme=st.sampled_from(KNOWN * 2 + ["pa", "pa", "pa"] + UNKNOWN),
    host=st.sampled_from([None, "h", "h2", "H"]),
    port=st.sampled_from([None, 1, 11, 80, 443, 8080, 65535]),
    user=st.sampled_from([None, "u", "v", "p"]),
    password=st.sampled_from([None, "p", "q", "u"]),
    connector=st.sampled_from([None, "/a.zip", "memory:///a.zip", "/b.zip"]),
    opts=st.lists(OPTS, max_size=2, unique_by=lambda o: o[0]))


def fix(a):
    """Only combinations that an address can express."""
    a = dict(a)
    if a["connector"] is not None:
        a["host"] = None
    if a["scheme"].startswith("http"):
        a["connector"] = None
        a["host"] = a["host"] or "h"
    if a["host"] is None:
        a["port"] = None
    return a


@st.composite
def cases(draw):
    first = {f: draw(s) for f, s in FIELDS.items()}
    style = draw(st.sampled_from(["any", "full", "full", "host"]))
    if style != "any":
        first.update(scheme="pa", host="h", connector=None)
    if style == "full":
        first.update(user="u", password="p", port=1)
    raw = [first]
    for _ in range(draw(st.sampled_from([5, 4, 3, 2]))):
        b = dict(draw(st.sampled_from(raw)))
        for f in draw(st.lists(st.sampled_from(sorted(FIELDS)), min_size=1, max_size=2)):
            b[f] = draw(FIELDS[f])
        raw.append(b)
    get = st.tuples(st.just("get"), st.integers(0, 5), st.integers(0, 11), st.integers(0, 4),
                    st.sampled_from(["uri", "uri", "registry", "derived", "copied", "operation",
                                     "old"])).map(list)
    op = st.one_of([get] * 7 + [
        st.tuples(st.just("register"), st.integers(0, 3), st.integers(0, 9)).map(list),
        st.tuples(st.just("arm"), st.integers(0, 3)).map(list),
        st.just(["drop"]), st.tuples(st.just("forget"), st.integers(0, 5)).map(list)])
    return dict(pool=[fix(a) for a in raw], ops=draw(st.lists(op, min_size=10, max_size=30)))


# -- asked for by several threads at once -------------------------------------------

def together(case, ctx):
    probe.reset()
    reg = vfs.ConnectionRegistry(clean_interval=100000)

    def stop():
        reg.run_clean_thread = False
    ctx.defer(stop)
    inner = probe.factory("t")
    fails = [case["fails"]]

    def slow(*args, **kw):
        # others come meanwhile
        time.sleep(case["pause"] / 1000.0)
        if fails[0]:
            fails[0] -= 1
            raise probe.FactoryError("told to fail")
        return inner(*args, **kw)
    for s in ("pa", "pb"):
        reg.register(s, slow)
    pool = [fix(a) for a in case["pool"]]
    n = len(case["plans"])
    barrier = threading.Barrier(n)
    got, errors = [[] for _ in range(n)], []

    def work(k):
        barrier.wait(20)
        for i in case["plans"][k]:
            a = pool[i % len(pool)]
            d = dict(map(tuple, a["opts"]))
            try:
                got[k].append((key(a), reg.get_connection(
                    scheme=a["scheme"], hostname=a["host"], port=a["port"], username=a["user"],
                    password=a["password"], vpath_connector=a["connector"], **d)))
            except Exception as e:
                errors.append(e)

    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
            need(not t.is_alive(), "a thread gets no answer when it asks for a backend")
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        need(isinstance(e, probe.FactoryError), "a thread that asks for a backend gets %r", e)
    same(len(errors), case["fails"] - fails[0], "failures reported")
    by = {}
    for answers in got:
        for k, c in answers:
            need(by.setdefault(k, c) is c, "two threads get different backends for %r", k)
    same(len(set(map(id, by.values()))), len(by), "backends of %d addresses", len(by))
    same(sorted(id(x[3]) for x in probe.LOG.created), sorted(map(id, by.values())),
         "backends created (each once)")
    for k, c in by.items():
        need(reg.get_connection(k[0], *k[1:6], **dict(k[6])) is c, "%r lost its backend", k)
    reg.cleanup(force=True)
    same(sorted(map(id, probe.LOG.closed)), sorted(map(id, by.values())), "backends closed")
    asked = [i % len(pool) for plan in case["plans"] for i in plan]
    if any(asked.count(i) > 1 for i in asked):
        ctx.nontrivial()


@st.composite
def crowds(draw):
    base = {f: draw(s) for f, s in FIELDS.items()}
    base["scheme"] = "pa"
    pool = [base]
    for _ in range(draw(st.integers(0, 2))):
        b = dict(draw(st.sampled_from(pool)))
        f = draw(st.sampled_from(sorted(FIELDS)))
        b[f] = draw(st.sampled_from(["pa", "pb"]) if f == "scheme" else FIELDS[f])
        pool.append(b)
    plan = st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=3)
    return dict(pool=pool, plans=draw(st.lists(plan, min_size=2, max_size=5)),
                pause=draw(st.sampled_from([0, 1, 3])), fails=draw(st.sampled_from([0, 0, 0, 1, 2])))


def run_many(case, ctx):
    """Many backends at the same time."""
    probe.reset()
    reg = probe.REG
    reg.cleanup(force=True)
    probe.reset()
    reg.register("pa", probe.factory("pa"))
    ctx.defer(lambda: (reg.cleanup(force=True), reg.schemes.pop("pa", None)))
    n, vary = case["n"], case["vary"]

    def uri(i):
        return URI(["pa://h%d/x", "pa://h:%d/x", "pa://h/x?k=%d", "pa://u%d:p@h/x", "pa://((/d/%d.zip))/x"][
            (vary + (i if case["mixed"] else 0)) % 5] % (i + 1))
    inst = []
    for i in range(n):
        inst.append(uri(i).get_connection())
        if i % case["every"] == 0:
            j = i // 2
            need(uri(j).get_connection() is inst[j], "address %d of %d has another backend now", j, i)
    need(len(set(map(id, inst))) == n, "%d backends for %d addresses", len(set(map(id, inst))), n)
    for i in reversed(range(n)):
        need(uri(i).get_connection() is inst[i], "address %d of %d has another backend at the end", i, n)
    same((len(probe.LOG.created), len(probe.LOG.closed)), (n, 0), "backends created and closed for %d addresses", n)
    ctx.nontrivial()


CHECKS = [
    Check("together", lambda t: crowds(), together, 400, 8000, shrink=False,
          rule="two threads ask for the same address"),
    Check("lookups", lambda t: cases(), run, 8000, 200000,
          rule="an address is asked for again while its backend is open, and backends of at least "
               "two addresses are created"),
    Check("many", lambda t: st.fixed_dictionaries(dict(
        n=st.integers(2, 1500), vary=st.integers(0, 4), mixed=st.booleans(), every=st.integers(1, 9))),
        run_many, 60, 1000, rule="every case"),
]
