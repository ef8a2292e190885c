"""M03: an injected callback runs before every operation on its path, only there."""
from hypothesis import strategies as st

from vh import hist, trees, worlds
from vh.core import Check, need, outcome, same



class Boom(Exception):
    pass


class Hard(BaseException):
    pass


ERRORS = [None, None, Boom, OSError, ValueError, Hard]


def locked(u):
    with u.lock(fail_on_lock=True) as f:
        f.write("x")


def put(mode):
    def fn(u, o):
        with u.open(mode) as f:
            f.write(b"data")
    return fn


SIMPLE = {
    "exists": lambda u, o: u.exists(), "isfile": lambda u, o: u.isfile(),
    "isdir": lambda u, o: u.isdir(), "islink": lambda u, o: u.islink(),
    "readlink": lambda u, o: u.readlink(), "isexec": lambda u, o: u.isexec(),
    "set_exec": lambda u, o: u.set_exec(0o110), "read": lambda u, o: u.open("rb").read(),
    "write": put("wb"), "append": put("ab"), "update": put("r+b"), "text": lambda u, o: u.open(),
    "listdir": lambda u, o: u.listdir(), "mkdir": lambda u, o: u.mkdir(),
    "remove": lambda u, o: u.remove(), "info": lambda u, o: u.info(),
    "setinfo": lambda u, o: u.info(dict(mode=0o700)), "mtime": lambda u, o: u.mtime(),
    "linkinfo": lambda u, o: u.info(followlinks=False), "glob": lambda u, o: u.glob("*"),
    "md5": lambda u, o: u.md5(), "lock": lambda u, o: locked(u),
    "_manipulate": lambda u, o: u._manipulate(mtime=77.0),
}
# these also act on other paths
COMPOSITE = {
    "makedirs": lambda u, o: u.makedirs(), "removetree": lambda u, o: u.remove(recursive=True),
    "walk": lambda u, o: list(zip(range(50), u.walk(followlinks=False))),
    "copy": lambda u, o: u.copy(o, recursive=u.isdir(), followlinks=u.isfile()), "move": lambda u, o: u.move(o),
    "copylink": lambda u, o: u.copy(o, followlinks=False, recursive=u.isdir()),
    "copystat": lambda u, o: u.copystat(o), "symlink": lambda u, o: u.symlink(o),
}
OPS = dict(SIMPLE, **COMPOSITE)
# what also makes sense on the root
ROOT = ("exists", "isfile", "isdir", "islink", "listdir", "info", "linkinfo", "mtime", "glob", "makedirs",
        "walk", "isexec", "mkdir")


class Callback(object):
    def __init__(self, path, error, world, group):
        self.path, self.error, self.world, self.group = path, error, world, group
        self.active = False
        self.calls = 0
        self.seen = None

    def __call__(self, path, func):
        if not self.active:
            return
        if self.calls == 0:
            # what there was before the operation
            for c in self.group.values():
                c.active = False
            self.seen = self.world.snapshot()
            for c in self.group.values():
                c.active = True
        self.calls += 1
        same(path.path, self.path, "path given to the callback")
        if self.error is not None:
            raise self.error


def prefix(a, b):
    return b[:len(a)] == a


def made(w, p, how):
    """A URI of the path, made in one of many ways."""
    if how == 6 and p:
        return (w.uri(p) / "x").directory()
    if how == 7 and p:
        return [u for u in w.uri(p[:-1]).glob("*") if u.last() == p[-1]][0]
    if how == 8 and p:
        return w.uri(p).split()[0] / p[-1]
    if how == 9 and p:
        return (w.uri(p[:-1]) / p[-1][:1]) + p[-1][1:] if p[-1][1:] else w.uri(p)
    return w.uri(p, 0 if how == 4 else how)


def run(case, ctx):
    ctx.defer(worlds.clean_registry)
    r = hist.Runner(case["names"], [worlds.MemWorld(case["membase"], **dict(case["extras"]))], ctx)
    w = r.worlds[0]
    r.plant(case["tree"])
    names = case["names"]
    cbs = {}              # path -> Callback
    hit = failed = quiet = 0

    def active(flag):
        for c in cbs.values():
            c.active = flag
            if flag:
                c.calls = 0
                c.seen = None

    def path(sp):
        # the model only knows the first tree: take any path that is there now
        sel, k, tail = sp
        if sel == "r":
            return ()
        snap = w.snapshot()
        c = sorted(p for p, v in snap.items() if sel in ("a", v[0])) or sorted(snap)
        base = c[k % len(c)] if c else ()
        return base + tuple(names[i % len(names)] for i in tail)

    for op in case["ops"]:
        if op[0] == "set":
            p = path(op[1])
            # callbacks that are set do not keep others from being set
            active(False)
            err = ERRORS[op[2]]
            u = made(w, p, 0)
            cbs[p] = Callback(u.path, err and err("injected"), w, cbs)
            u._manipulate(next_op_callback=cbs[p])
        elif op[0] == "unset":
            if op[1] == 3:
                # where there is none, or no longer
                active(False)
                p = path(["a", len(cbs), [0]])
                if p not in cbs:
                    w.uri(p)._manipulate(next_op_callback=None)
                    ctx.label("unset without a callback")
            elif cbs:
                active(False)
                p = sorted(cbs)[op[1] % len(cbs)]
                w.uri(p)._manipulate(next_op_callback=None)
                old = cbs.pop(p)
                old.active, old.calls = True, 0
                w.uri(p).exists()
                same(old.calls, 0, "calls of the callback of %s after it was unset", p)
        elif op[0] == "mtime":
            active(False)
            p = path(op[1])
            u = w.uri(p)
            if not u.exists():
                continue
            if not p:
                continue
            stamp = op[3] + 0.5 if op[3] > 2 else op[3]
            others = {q: w.uri(q).info(followlinks=False).mtime for q in w.snapshot()}
            made(w, p, op[2])._manipulate(mtime=stamp)
            if any(w.uri(p[:k]).islink() for k in range(1, len(p) + 1)):
                # it is set on the one entry that the path leads to
                moved = [q for q in others if w.uri(q).info(followlinks=False).mtime != others[q]]
                need(len(moved) <= 1 and not any(w.uri(q).islink() for q in moved),
                     "mtime set on %s changes that of %s", p, moved)
                ctx.label("mtime through a link")
            else:
                others[p] = stamp
                for q, t in others.items():
                    same(w.uri(q).info(followlinks=False).mtime, t,
                         "mtime of %s after setting it on %s", q, p)
            same(u.mtime(), stamp, "mtime() of %s", p)
            ctx.label("mtime")
        else:
            _, name, sp, how, osp = op
            # mostly where a callback is
            active(False)
            p = sorted(cbs)[sp[1] % len(cbs)] if sp[0] == "c" and cbs else path(
                ["a"] + sp[1:] if sp[0] == "c" else sp)
            o = sorted(cbs)[osp[1] % len(cbs)] if osp[0] == "c" and cbs else path(
                ["a"] + osp[1:] if osp[0] == "c" else osp)
            if not o or (not p and name not in ROOT):
                continue
            if not p:
                ctx.label("root " + name)
            if how == 7 and not w.uri(p).exists() and not w.uri(p).islink():
                how = 0
            if how == 9 and p and not all(ch.isalnum() for ch in p[-1]):
                how = 0
            u, v = made(w, p, how), made(w, o, 0)
            before = w.snapshot()
            what = "%s of %s%s, made in way %d" % (name, p, " to %s" % (o,) if name in COMPOSITE else "", how)
            active(True)
            try:
                try:
                    kind, val = outcome(OPS[name], u, v)
                except Hard as e:
                    kind, val = "err", e
            finally:
                for c in cbs.values():
                    c.active = False
            first = cbs.get(p)
            if first is not None:
                need(first.calls > 0, "%s does not run the callback of this path", what)
                same(first.seen, before, "tree when the callback of %s runs", what)
                hit += 1
                ctx.label(name)
                if first.error is not None:
                    need(kind == "err" and val is first.error,
                         "%s gives %r, its callback raised %r", what, val, first.error)
                    same(first.calls, 1, "calls of a raising callback by %s", what)
                    same(w.snapshot(), before, "tree after %s failed by its callback", what)
                    failed += 1
                    continue
            else:
                quiet += 1
            raised = [c for c in cbs.values() if c.calls and c.error is not None]
            for q, c in cbs.items():
                if q == p:
                    continue
                if name in SIMPLE:
                    same(c.calls, 0, "calls of the callback of %s by %s", q, what)
                elif not any(prefix(q, x) or prefix(x, q) for x in (p, o)):
                    same(c.calls, 0, "calls of the callback of %s by %s", q, what)
            if raised:
                need(kind == "err" and any(val is c.error for c in raised),
                     "%s gives %r although a callback raised %r", what, val, raised[0].error)
                if (name in ("copy", "move") and cbs.get(o) in raised and before.get(p, ("?",))[0] == "f"
                        and before.get(o, ("f",))[0] == "f"):
                    same(w.snapshot(), before, "tree after %s failed by the callback of the target", what)
                    ctx.label("target callback")
    if hit and (failed or quiet):
        ctx.nontrivial()


def cases(tier):
    s = hist.spec(["a", "f", "d", "l", "a", "r"], 1)
    sc = st.one_of(hist.spec(["c"], 0), hist.spec(["c"], 0), s)
    op = st.one_of(
        *[st.tuples(st.just("op"), st.sampled_from(sorted(OPS)), sc, st.integers(0, 9), sc).map(list)] * 6,
        *[st.tuples(st.just("set"), s, st.integers(0, len(ERRORS) - 1)).map(list)] * 2,
        st.tuples(st.just("unset"), st.integers(0, 3)).map(list),
        st.tuples(st.just("mtime"), s, st.integers(0, 5), st.one_of(st.integers(0, 10 ** 9), st.integers(-5, 3))).map(list))
    first = st.tuples(st.just("set"), s, st.integers(0, len(ERRORS) - 1)).map(list)
    return st.fixed_dictionaries(dict(
        names=hist.pools(2, 3), tree=trees.trees(2, 3, 1, hist.contents(False), min_size=1),
        membase=st.sampled_from(["", "", "/b"]), extras=st.sampled_from([[], [], [["k", "v"]]]),
        ops=st.tuples(first, st.lists(op, min_size=4, max_size=14)).map(lambda t: [t[0]] + t[1])))


CHECKS = [
    Check("callbacks", cases, run, 5000, 120000,
          rule="an operation is made on a path with a callback, and the callback fails it or "
               "another path is used as well"),
]
