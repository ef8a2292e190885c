"""U09: URIs are independent values; operations leave them and all other arguments as they were."""
import copy
import pickle

from hypothesis import strategies as st

from vh import gen, probe, uris
from vh.core import Check, Violation, need, same

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs

SCHEMES = ["probe", "svn+ssh", "x-y", "http", "https", "s3"]
for s in SCHEMES:
    if s not in probe.REG.schemes:
        probe.REG.register(s, probe.factory(s))

CREDS = ("username", "password")


def picture(u):
    """Everything a URI says about itself."""
    d = uris.facts(u)
    d.update(text=str(u), repr=repr(u), path=u.path, unipath=u.unipath, sep=u.sep, absolute=u.is_absolute,
             extras=dict(u.extras), base=u.basename(), last=u.last(), kind=type(u).__name__,
             fragment=u.fragment, original=u.uri)
    return d


def compare(pool, pictures, what, *args):
    for k, (u, p) in enumerate(zip(pool, pictures)):
        same(picture(u), p, "URI %d of %d after " + what, *((k, len(pool)) + args))


def key_of(p):
    """What the backend of a URI depends on."""
    extras = dict(p["extras"])
    if p["scheme"] not in ("http", "https"):
        extras.update(p["query"])
    return tuple(p[n] for n in ("scheme", "host", "port", "user", "password", "connector")), extras


def ask(u, p, seen, what, *args):
    inst = u.get_connection()
    key, extras = key_of(p)
    same((inst.hostname or None, inst.port or None, inst.username or None, inst.password or None,
          inst.vpath_connector or None), key[1:], "backend after " + what, *args)
    same(dict(inst.extras), extras, "options of the backend after " + what, *args)
    for other, k in seen:
        need((other is inst) == (k == (key, extras)), "backend after " + what + ": %s", *(
            args + ("another one for the same address" if other is not inst else "the one of another address",)))
    seen.append((inst, (key, extras)))
    probe.LOG.calls[:] = []
    u.exists()
    need(probe.LOG.calls == [(inst, "exists")], "operation on another backend after " + what, *args)


def run_values(case, ctx):
    probe.reset()
    ctx.defer(lambda: probe.REG.cleanup(force=True))
    pool, pics, seen = [], [], []
    changed = derived = 0
    for p, kw in case["uris"]:
        u = URI(uris.text(p), **dict(map(tuple, kw)))
        pool.append(u)
        pics.append(picture(u))
        same({n: pics[-1][n] for n in uris.wanted(p)}, uris.wanted(p), "%r", uris.text(p))
    for step, (op, i, a, b) in enumerate(case["steps"]):
        i %= len(pool)
        u, p = pool[i], pics[i]
        what = "step %d, %s %r %r of URI %d (%s)"
        args = (step, op, a, b, i, p["text"])
        if op in ("query", "noquery", "extra", "noextra", "scheme"):
            q, x, scheme = dict(p["query"]), dict(p["extras"]), p["scheme"]
            if op == "query":
                u.query[a] = q[a] = b
            elif op == "noquery":
                if not q:
                    continue
                k = sorted(q)[len(a) % len(q)]
                del u.query[k], q[k]
            elif op == "extra":
                u.extras[a] = x[a] = b
            elif op == "noextra":
                if not x:
                    continue
                k = sorted(x)[len(a) % len(x)]
                del u.extras[k], x[k]
            else:
                scheme = SCHEMES[len(a) % len(SCHEMES)]
                if scheme.startswith("http") and "#" in p["path"]:
                    continue
                u.scheme = scheme
            new = picture(u)
            # only this has changed
            same(new, dict(p, query=q, extras=x, scheme=scheme, text=new["text"], repr=new["repr"]),
                 "URI itself after " + what, *args)
            if (q, scheme) == (p["query"], p["scheme"]):
                same(new["text"], p["text"], "text after " + what, *args)
            pics[i] = new
            changed += 1
        elif op == "ask":
            ask(u, p, seen, what, *args)
        elif op == "equal":
            j = len(a) % len(pool)
            u == pool[j], u != pool[j]
        elif op == "unlike":
            u == a, u != None, str(u), repr(u), u.is_absolute, u.splitext(), u.port
        elif len(pool) < 8:
            if op == "copy":
                v = URI(u)
            elif op == "deepcopy":
                v = copy.deepcopy(u)
            elif op == "pickle":
                v = pickle.loads(pickle.dumps(u))
            elif op == "join":
                names = [a, "z"]
                v = u.join(*names)
                same(names, [a, "z"], "names after " + what, *args)
            elif op == "/":
                v = u / a
            elif op == "+":
                if not p["path"] or p["path"].endswith("/"):
                    continue
                v = u + a
            elif op == "split":
                if "/" not in p["path"].rstrip("/"):
                    continue
                v, rest = u.split()
            elif op == "directory":
                if "/" not in p["path"].rstrip("/"):
                    continue
                v = u.directory()
            need(v is not u, "the URI itself given by " + what, *args)
            new = picture(v)
            if op in ("copy", "deepcopy", "pickle"):
                need(v == u and u == v and not v != u, "not equal to its original after " + what, *args)
                same(new["text"], p["text"], "text after " + what, *args)
                same(new["path"], p["path"], "path after " + what, *args)
            for n in ("query", "extras", "scheme", "host", "port", "user", "password", "connector", "sep", "kind"):
                same(new[n], p[n], n + " of what is derived by " + what, *args)
            pool.append(v)
            pics.append(new)
            derived += 1
        compare(pool, pics, what, *args)
        ctx.label(op)
    for i, (u, p) in enumerate(zip(pool, pics)):
        ask(u, p, seen, "all steps, URI %d (%s)", i, p["text"])
    compare(pool, pics, "all")
    if changed and derived:
        ctx.nontrivial()


OPS1 = ["exists", "isfile", "isdir", "islink", "isexec", "listdir", "info", "mtime", "walk", "walkup", "read", "write",
        "append", "mkdir", "makedirs", "remove", "rmtree", "glob", "md5", "set_exec", "setmode", "lock", "readlink",
        "write", "mkdir"]
OPS2 = ["copy", "copytree", "move", "symlink", "copystat", "copynl", "copy", "copytree", "move"]


def act(u, op, v, names, record):
    """Do it; record: lists and dictionaries that are handed over, with what they should be afterwards."""
    def given(value):
        record.append((op, value, value.copy()))
        return value
    if op in ("exists", "isfile", "isdir", "islink", "isexec", "mtime", "mkdir", "makedirs", "md5"):
        return getattr(u, op)()
    if op == "readlink":
        return u.readlink().path
    if op == "listdir":
        first = u.listdir()
        want = list(first)
        first[:] = ["nothing"]
        same(u.listdir(), want, "listdir of %s after the list it gave before was changed", u)
    elif op == "info":
        first = u.info()
        want = first.size, first.mode, first.mtime
        first.size = first.mode = first.mtime = -1
        got = u.info()
        same((got.size, got.mode, got.mtime), want, "info of %s after what it gave before was changed", u)
    elif op == "glob":
        first = u.glob("*")
        want = [x.path for x in first]
        for x in first:
            x.query["changed"] = "yes"
            x.scheme = "other"
        del first[:]
        same([(x.path, x.scheme, dict(x.query)) for x in u.glob("*")], [(x, u.scheme, dict(u.query)) for x in want],
             "glob of %s after what it gave before was changed", u)
    elif op in ("walk", "walkup"):
        for root, dirs, files in u.walk(topdown=op == "walk", followlinks=False):
            del files[:]
    elif op == "read":
        with u.open("rb") as f:
            f.read()
    elif op in ("write", "append"):
        with u.open(op[0] + "b") as f:
            f.write(b"data %d" % len(names))
    elif op == "remove":
        u.remove()
    elif op == "rmtree":
        u.remove(recursive=True)
    elif op == "set_exec":
        u.set_exec(0o100)
    elif op == "setmode":
        u.info(given({"mode": 0o700}))
    elif op == "lock":
        with u.lock():
            pass
    elif op == "copy":
        u.copy(v)
    elif op == "copynl":
        u.copy(v, followlinks=False)
    elif op == "copytree":
        u.copy(v, recursive=True, ignore=given(list(names)), followlinks=False)
    elif op == "move":
        u.move(v)
    elif op == "symlink":
        if u.isfile():
            u.symlink(v)
    elif op == "copystat":
        u.copystat(v)


def run_operations(case, ctx):
    ctx.defer(lambda: vfs.CONNECTION_REGISTRY.cleanup(force=True))
    d = ctx.dir()
    roots = dict(local=URI(d), memory=URI("memory:///"), other=URI("memory:///", key="other"),
                 query=URI("memory:///?x=1&y=2"))
    pool = []
    for where, names in case["paths"]:
        u = roots[where]
        for n in names:
            u = u / n
        pool.append(u)
    pool += list(roots.values())
    n = len(case["paths"])
    pics = [picture(u) for u in pool]
    done = set()
    record = []
    for step, (op, i, j, names) in enumerate(case["steps"]):
        u, v = pool[i % n], pool[j % n]
        what = "step %d, %s of %s (and %s)"
        args = (step, op, pics[i % n]["text"], pics[j % n]["text"])
        try:
            act(u, op, v, names, record)
            done.add(op)
            ctx.label(op)
        except Violation:
            raise
        except Exception as e:
            ctx.label("failed " + op)
        for name, value, before in record:
            same(value, before, "argument of " + name + " after " + what, *args)
        compare(pool, pics, what, *args)
    if done & set(OPS2) and len(done) > 3:
        ctx.nontrivial()


@st.composite
def value_cases(draw):
    keys = gen.texts().filter(lambda k: k and k not in probe.RESERVED)
    out = []
    for _ in range(draw(st.integers(1, 2))):
        p = draw(uris.parts(schemes=SCHEMES, trailing=False))
        p["query"] = [kv for kv in p["query"] if kv[0] not in probe.RESERVED]
        taken = {k for k, _ in p["query"]} | probe.RESERVED
        kw = draw(st.lists(st.tuples(st.text(alphabet="abck_", min_size=1, max_size=3).filter(lambda k: k not in taken),
                                     st.one_of(gen.texts(), st.integers(2, 99))).map(list),
                           max_size=2, unique_by=lambda kv: kv[0]))
        out.append([p, kw])
    http = any(p["scheme"].startswith("http") for p, _ in out)
    name = gen.names(exclude="#")
    text = st.one_of(st.sampled_from(["1", "2"]), gen.texts())
    key = st.one_of(st.sampled_from(["k", "x"]), keys)
    none = st.just("")
    step = st.one_of(
        st.tuples(st.sampled_from(["query", "extra"]), st.integers(0, 7), key, text),
        st.tuples(st.sampled_from(["noquery", "noextra", "scheme", "equal"]), st.integers(0, 7),
                  st.text(alphabet="i", max_size=5), none),
        st.tuples(st.sampled_from(["ask", "copy", "split", "directory", "deepcopy", "pickle", "unlike"]), st.integers(0, 7), none, none),
        st.tuples(st.sampled_from(["join", "/", "+"]), st.integers(0, 7), name, none)).map(list)
    return dict(uris=out, steps=draw(st.lists(step, min_size=2, max_size=14)))


def operation_cases(tier):
    names = st.lists(st.sampled_from(["a", "b", "a b", "c#"]), min_size=1, max_size=2)
    step = st.one_of(
        st.tuples(st.sampled_from(OPS1), st.integers(0, 5), st.just(0), st.just([])),
        st.tuples(st.sampled_from(OPS2), st.integers(0, 5), st.integers(0, 5), names)).map(list)
    where = st.sampled_from(["local", "memory", "local", "memory", "other", "query"])
    return st.fixed_dictionaries(dict(
        paths=st.lists(st.tuples(where, names).map(list), min_size=2, max_size=6),
        steps=st.lists(step, min_size=3, max_size=24 if tier == "thorough" else 14)))


CHECKS = [
    Check("values", lambda t: value_cases(), run_values, 4000, 120000,
          rule="URIs are derived and some are changed"),
    Check("operations", operation_cases, run_operations, 1600, 50000,
          rule="more than three kinds of operations succeed, one of them on two paths"),
]
