"""C03: an operation on a path is carried out once, by the backend of the path, as it was asked for."""
import hashlib
import keyword

from hypothesis import strategies as st

from vh import gen, hist
from vh.core import Check, need, outcome, same, short

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs
from abl.vpath.base.exceptions import FileDoesNotExistError

REG = vfs.CONNECTION_REGISTRY
REG.run_clean_thread = False
PREDICATES = ("exists", "isfile", "isdir", "islink", "isexec")


class Stream(object):
    """What a backend may hand out: short reads, nothing but read, write and close."""

    def __init__(self, data, step, fail):
        self.data, self.step, self.fail, self.closed = data, step, fail, 0

    def read(self, n=-1):
        if self.fail is not None and self.fail <= 0:
            raise OSError(5, "read")
        if self.fail is not None:
            self.fail -= 1
        if n is None or n < 0:
            k = len(self.data)
        else:
            k = min(n, self.step or n)
        out, self.data = self.data[:k], self.data[k:]
        return out

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Recorder(vfs.RevisionedFileSystem):
    """Records every call of an operation with its arguments under their documented names."""

    def _initialize(self):
        self.calls = []
        self.hooks = []
        self.answers = {}
        self.error = None
        self.hook_error = None

    def pre_call_hook(self, path, func):
        self.hooks.append((path, func.__name__))
        if self.hook_error is not None:
            raise self.hook_error

    def _did(self, name, **args):
        self.calls.append((name, args))
        if self.error is not None:
            raise self.error
        return self.answers.get(name)

    def open(self, path, options, mimetype):
        return self._did("open", path=path, options=options, mimetype=mimetype)

    def listdir(self, path):
        return self._did("listdir", path=path)

    def removefile(self, path):
        return self._did("removefile", path=path)

    def removedir(self, path):
        return self._did("removedir", path=path)

    def mkdir(self, path):
        return self._did("mkdir", path=path)

    def makedirs(self, path):
        return self._did("makedirs", path=path)

    def exists(self, path):
        return self._did("exists", path=path)

    def isfile(self, path):
        return self._did("isfile", path=path)

    def isdir(self, path):
        return self._did("isdir", path=path)

    def isexec(self, path, mode):
        return self._did("isexec", path=path, mode=mode)

    def set_exec(self, path, mode):
        return self._did("set_exec", path=path, mode=mode)

    def islink(self, path):
        return self._did("islink", path=path)

    def readlink(self, path):
        return self._did("readlink", path=path)

    def symlink(self, target, link_name):
        return self._did("symlink", path=target, link_name=link_name)

    def info(self, path, set_info=None, followlinks=True):
        return self._did("info", path=path, set_info=set_info, followlinks=followlinks)

    def sync(self, source, dest, options):
        return self._did("sync", path=source, dest=dest, options=options)

    def mtime(self, path):
        return self._did("mtime", path=path)

    def copystat(self, path, other):
        return self._did("copystat", path=path, other=other)

    def copy(self, source, dest, recursive=False, ignore=None, followlinks=True):
        return self._did("copy", path=source, dest=dest, recursive=recursive, ignore=ignore,
                         followlinks=followlinks)

    def move(self, source, destination):
        return self._did("move", path=source, destination=destination)

    def walk(self, top, topdown=True, followlinks=True):
        return self._did("walk", path=top, topdown=topdown, followlinks=followlinks)

    def glob(self, path, pattern):
        return self._did("glob", path=path, pattern=pattern)

    def lock(self, path, fail_on_lock, cleanup):
        return self._did("lock", path=path, fail_on_lock=fail_on_lock, cleanup=cleanup)

    def _manipulate(self, path, *args, **kwargs):
        return self._did("_manipulate", path=path, args=args, kwargs=kwargs)

    def switch(self, path, branch):
        return self._did("switch", path=path, branch=branch)

    def update(self, path, recursive=False, clean=False):
        return self._did("update", path=path, recursive=recursive, clean=clean)

    def log(self, path, limit=0, **kwargs):
        return self._did("log", path=path, limit=limit, kwargs=kwargs)

    def log_by_time(self, path, start_time=None, stop_time=None):
        return self._did("log_by_time", path=path, start_time=start_time, stop_time=stop_time)


INSTANCES = []


def make(*args, **kw):
    r = Recorder(*args, **kw)
    INSTANCES.append(r)
    return r


class OwnUri(vfs.RevisionedUri):
    pass


REG.register("disp", make)
REG.register("dispx", make)
vfs.SCHEME_REGISTRY["disp"] = vfs.RevisionedUri
vfs.SCHEME_REGISTRY["dispx"] = OwnUri

X_ALL = 0o111

# operation: (names of further arguments with their strategies, defaults that reach the backend,
#             name at the backend of each argument)
MASK = st.sampled_from([0o100, 0o010, 0o001, 0o111, 0o110, 0])
FLAG = st.sampled_from([True, False])
TEXT = gen.texts()
NUM = st.integers(-5, 100)
URIARG = "uri"
IGNORE = st.one_of(st.none(), st.lists(gen.names(), max_size=3))

OPS = {
    "exists": [], "isfile": [], "isdir": [], "islink": [], "readlink": [], "listdir": [], "mkdir": [],
    "makedirs": [], "mtime": [],
    "isexec": [("mode", MASK, X_ALL, "mode")],
    "set_exec": [("mode", MASK, None, "mode")],
    "open": [("options", st.sampled_from(["r", "rb", "w", "wb", "ab", "r+b", None]), None, "options"),
             ("mimetype", st.sampled_from(["text/plain", "", "x/y"]), "application/octet-stream", "mimetype")],
    "copy": [("other", URIARG, None, "dest"), ("recursive", FLAG, False, "recursive"),
             ("ignore", IGNORE, None, "ignore"), ("followlinks", FLAG, True, "followlinks")],
    "copystat": [("other", URIARG, None, "other")],
    "move": [("other", URIARG, None, "destination")],
    "symlink": [("link_name", URIARG, None, "link_name")],
    "walk": [("topdown", FLAG, True, "topdown"), ("followlinks", FLAG, True, "followlinks")],
    "info": [("set_info", st.sampled_from([None, {"mode": 0o600}, {}]), None, "set_info"),
             ("followlinks", FLAG, True, "followlinks")],
    "sync": [("other", URIARG, None, "dest"), ("options", TEXT, "", "options")],
    "glob": [("pattern", TEXT, None, "pattern")],
    "lock": [("fail_on_lock", FLAG, False, "fail_on_lock"), ("cleanup", FLAG, False, "cleanup")],
    "switch": [("branch", TEXT, None, "branch")],
    "update": [("recursive", FLAG, True, "recursive"), ("clean", FLAG, False, "clean")],
    "log": [("limit", st.one_of(NUM, st.none()), 0, "limit")],
    "log_by_time": [("start_time", st.one_of(NUM, st.none()), None, "start_time"),
                    ("stop_time", st.one_of(NUM, st.just(0)), None, "stop_time")],
    "_manipulate": [],
}
# arguments without a default
NEEDED = {("set_exec", "mode"), ("glob", "pattern"), ("switch", "branch")}


class Failure(Exception):
    pass


def start(case, ctx):
    def restore():
        for i in INSTANCES:
            i.error = i.hook_error = None
        REG.cleanup(force=True)
        del INSTANCES[:]
    ctx.defer(restore)
    REG.cleanup(force=True)
    del INSTANCES[:]


def place(p):
    scheme, host, names, extra = p
    return URI("%s://h%d%s" % (scheme, host, "".join("/" + n for n in names)), **({"opt": extra} if extra else {}))


def arguments(name, given, place_of):
    """(positional, keywords, what the backend must get)."""
    pos, kw, want = [], {}, {}
    positional = True
    for (arg, strat, default, there), (how, value) in zip(OPS[name], given):
        if strat == URIARG:
            value = place_of(value)
        elif how == "omit" and (name, arg) not in NEEDED:
            positional = False
            want[there] = default
            continue
        if how == "pos" and positional:
            pos.append(value)
        else:
            positional = False
            kw[arg] = value
        want[there] = value
    return pos, kw, want


def answer_for(name, k):
    if name in PREDICATES:
        return bool(k % 2)
    if name == "listdir":
        return ["x", "a", "b"][:k % 4]
    if name == "glob" or name.startswith("log"):
        return [object() for _ in range(k % 3)]
    if name == "mtime":
        return 1000.5 + k
    if name == "walk":
        return [(object(), ["d"], ["f"]) for _ in range(k % 3)]
    if name == "open":
        return Stream(b"", 0, None)
    return object()


def all_calls():
    return [(i, n, a) for i in INSTANCES for n, a in i.calls]


def run(case, ctx):
    start(case, ctx)
    name = case["op"]
    u = place(case["path"])
    own = u.get_connection()
    pos, kw, want = arguments(name, case["args"], place)
    extra = {}
    if name == "log" or name == "_manipulate":
        extra = dict(map(tuple, case["kw"]))
        kw.update(extra)
    if name == "_manipulate":
        pos = list(case["free"])
        want.update(args=tuple(pos), kwargs=extra)
    elif name == "log":
        want.update(kwargs=extra)
    want["path"] = u
    others = [v for v in want.values() if isinstance(v, vfs.BaseUri)]
    conns = [v.get_connection() for v in others]
    if name == "symlink" and conns[0] is not own:
        return
    what = "%s(%s) of %s" % (name, short([pos, kw], 200), u)
    for _ in range(case["times"]):
        # the URIs stay usable for further operations
        for i in INSTANCES:
            del i.calls[:], i.hooks[:]
        ans = answer_for(name, case["k"])
        own.answers[name] = iter(ans) if name == "walk" else ans
        err = None
        if case["fail"] == "operation":
            err = own.error = Failure("of the backend")
        elif case["fail"] == "hook":
            err = own.hook_error = Failure("of the hook")

        def ask():
            r = getattr(u, name)(*pos, **kw)
            return list(r) if name == "walk" else r
        kind, got = outcome(ask)
        own.error = own.hook_error = None
        made = all_calls()
        if case["fail"] == "hook":
            same(len(made), 0, "operations carried out although the hook refuses %s", what)
        else:
            same([(c is own, n) for c, n, _ in made], [(True, name)],
                 "operations carried out for %s (by its own backend?, which)", what)
            args = made[0][2]
            for k in want:
                need(k in args and same_value(args[k], want[k]), "%s: the backend gets %s=%s, not %s",
                     what, k, short(args.get(k)), short(want[k]))
        if err is not None:
            need(kind == "err" and got is err, "%s: an error of the backend becomes %r", what, got)
        else:
            need(kind == "ok", "%s raises %r", what, got)
            if name != "_manipulate":
                need(got is ans or got == ans, "%s: the answer %s of the backend becomes %s", what, short(ans), short(got))
        for i in INSTANCES:
            hooks = [(p, n) for p, n in i.hooks]
            if i is own:
                same(len(hooks), 1, "calls of the backend's hook before %s", what)
                need(hooks[0][0] == u and hooks[0][1] == name, "%s: the hook is told %s of %s", what, hooks[0][1], hooks[0][0])
            else:
                same(len(hooks), 0, "calls of the hook of another backend for %s", what)
    ctx.label(name)
    if len(INSTANCES) > 1 or case["fail"] != "no" or any(h != "omit" for h, _ in case["args"]):
        ctx.nontrivial()


def same_value(got, want):
    if isinstance(want, vfs.BaseUri):
        return isinstance(got, vfs.BaseUri) and got == want and got.get_connection() is want.get_connection()
    if isinstance(want, bool):
        return bool(got) == want
    if isinstance(want, list) and got is not None:
        return sorted(got) == sorted(want)
    if want is None:
        return got is None
    return got == want


def places():
    return st.tuples(st.sampled_from(["disp", "disp", "dispx"]), st.integers(1, 2),
                     st.lists(gen.names(), min_size=1, max_size=3),
                     st.sampled_from([None, None, "one"])).map(list)


def cases(tier):
    how = st.sampled_from(["pos", "pos", "kw", "omit"])

    def of(name):
        args = [st.tuples(how, places() if s == URIARG else s).map(list) for _, s, _, _ in OPS[name]]
        key = st.one_of(st.sampled_from(["follow_copies", "revision", "strict", "mode", "user", "mtime", "lock"]),
                        st.from_regex(r"\A[a-z][a-z_]{0,7}\Z")).filter(
                            lambda k: k not in ("limit", "path", "self", "args", "kwargs", "func") and
                            not keyword.iskeyword(k))
        value = st.one_of(NUM, st.none(), st.booleans(), TEXT)
        return st.fixed_dictionaries(dict(
            op=st.just(name), path=places(), args=st.tuples(*args).map(list),
            kw=st.lists(st.tuples(key, value).map(list), max_size=2, unique_by=lambda t: t[0]),
            free=st.lists(value, max_size=2), k=st.integers(0, 7), times=st.integers(1, 2),
            fail=st.sampled_from(["no", "no", "no", "operation", "hook"])))
    return st.sampled_from(sorted(OPS)).flatmap(of)


# -- remove and md5 are made of other operations -----------------------------------------

def remove(case, ctx):
    start(case, ctx)
    u = place(case["path"])
    own = u.get_connection()
    place(case["other"]).get_connection()
    kind, recursive = case["kind"], case["recursive"]
    own.answers = dict(islink=kind.startswith("link"), exists=kind not in ("none", "link"),
                       isdir=kind in ("dir", "linkdir"), isfile=kind in ("file", "linkfile"))
    if kind == "dir":
        own.answers["walk"] = iter([(u, [], [])])
        own.answers["listdir"] = []
    token = object()
    own.answers["removefile"] = own.answers["removedir"] = token
    how, val = outcome(u.remove, *([recursive] if case["pos"] else []),
                       **({} if case["pos"] or recursive is None else dict(recursive=recursive)))
    done = [(c is own, n, a["path"] == u) for c, n, a in all_calls() if n.startswith("remove")]
    what = "remove(recursive=%s) of a %s" % (recursive, kind)
    if kind == "none":
        need(how == "err" and isinstance(val, FileDoesNotExistError), "%s gives %r", what, val)
        same(done, [], "%s: removed (by its own backend?, how, this path?)", what)
    else:
        need(how == "ok", "%s raises %r", what, val)
        same(done, [(True, "removedir" if kind == "dir" else "removefile", True)],
             "%s: removed (by its own backend?, how, this path?)", what)
    changed = [n for _, n, _ in all_calls() if n not in (
        "islink", "exists", "isdir", "isfile", "removefile", "removedir", "walk", "listdir")]
    same(changed, [], "%s: other operations", what)
    if kind != "file":
        ctx.nontrivial()
    ctx.label("remove " + kind)


def removes(tier):
    return st.fixed_dictionaries(dict(
        path=places(), other=places(), recursive=st.sampled_from([None, False, True]), pos=st.booleans(),
        kind=st.sampled_from(["file", "dir", "dir", "link", "linkfile", "linkdir", "none"]))).map(
            lambda c: dict(c, pos=c["pos"] and c["recursive"] is not None))


def md5(case, ctx):
    start(case, ctx)
    u = place(case["path"])
    own = u.get_connection()
    data = hist.content(case["data"])
    s = Stream(data, case["step"], case["fail"])
    own.answers["open"] = s
    how, val = outcome(u.md5)
    opened = [(c is own, a["path"] == u, a["options"]) for c, n, a in all_calls() if n == "open"]
    same(opened, [(True, True, "rb")], "files opened for an md5 (by its own backend?, this path?, how)")
    same([n for _, n, _ in all_calls() if n not in ("open", "exists", "isfile", "isdir", "info")], [],
         "other operations for an md5")
    need(s.closed >= 1, "the file is left open after an md5 (%s)", val)
    if how == "ok":
        same(val, hashlib.md5(data).hexdigest(), "md5 of %d bytes read in steps of %d", len(data), case["step"])
    else:
        need(case["fail"] is not None and isinstance(val, OSError), "md5 raises %r", val)
    if case["step"] or case["fail"] is not None:
        ctx.nontrivial()


def md5s(tier):
    return st.fixed_dictionaries(dict(path=places(), data=hist.contents(),
                                      step=st.sampled_from([0, 0, 1, 3, 100, 4095]),
                                      fail=st.sampled_from([None, None, None, 0, 1, 2]))).filter(
        lambda c: c["step"] not in (1, 3) or len(hist.content(c["data"])) < 3000)


CHECKS = [
    Check("operations", cases, run, 9000, 200000,
          rule="more than one backend is open, or arguments are given, or the backend fails"),
    Check("remove", removes, remove, 800, 20000, rule="not a plain file"),
    Check("md5", md5s, md5, 1200, 20000, rule="short or failing reads"),
]
