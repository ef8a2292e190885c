"""M02: in-memory file systems with different addresses are independent."""
from hypothesis import strategies as st

from vh import hist, reffs, trees, worlds
from vh.core import Check, need, outcome, same

from abl.util import LockFileObtainException
from abl.vpath.base import URI
from abl.vpath.base import fs as vfs

REG = vfs.CONNECTION_REGISTRY
ADDRESSES = [{}, {"key": "one"}, {"key": "two"}, {"key": "one", "x": "1"}, {"x": "one"}, {"one": "key"},
             {"username": "u"}, {"username": "u", "password": "key"}]


class World(worlds.MemWorld):

    def __init__(self, extras):
        worlds.MemWorld.__init__(self, "", **extras)
        self.name = "memory %s" % extras
        # the same address can be written as text and with keywords
        need(URI(self.text(())).get_connection() is self.root_uri().get_connection(),
             "%s as text and with keywords are two file systems", self.name)

    def attrs(self):
        out = {}

        def rec(u, p):
            for n in u.listdir():
                v, q = u / n, p + (n,)
                i = v.info(followlinks=False)
                out[q] = (i.mode, i.mtime, i.size)
                if v.isdir() and not v.islink():
                    rec(v, q)
        rec(self.root_uri(), ())
        return out


def run(case, ctx):
    ctx.defer(worlds.clean_registry)
    REG.cleanup(force=True)
    names = case["names"]
    rs = []
    for k in case["addresses"]:
        r = hist.Runner(names, [World(ADDRESSES[k])], ctx)
        rs.append(r)
    conns = [r.worlds[0].root_uri().get_connection() for r in rs]
    need(len(set(map(id, conns))) == len(conns), "different addresses share a file system")
    for r, t in zip(rs, case["forest"]):
        r.plant(t)
    held = {}             # (world, path) -> lock
    handles = []          # (world, path, handle), as long as the path stays
    calls = []            # (world, path) of callbacks that ran
    drops = 0
    acted = set()
    attrs = [r.worlds[0].attrs() for r in rs]
    kept = [r.worlds[0].root_uri() for r in rs]

    def release(i):
        for (j, p) in list(held):
            if j == i:
                held.pop((j, p)).__exit__(None, None, None)
        handles[:] = [h for h in handles if h[0] != i]

    def finish():
        for i in range(len(rs)):
            outcome(release, i)
    ctx.defer(finish)

    for op in case["ops"]:
        i = op[1] % len(rs)
        r = rs[i]
        w = r.worlds[0]
        what = "%s in %s" % (op, w.name)
        del calls[:]
        if op[0] in ("do", "same"):
            handles[:] = [h for h in handles if h[0] != i]
        if op[0] == "do":
            r.step(op[2])
            acted.add(i)
        elif op[0] == "drop":
            release(i)
            w.root_uri().get_connection().last_used = 0
            REG.cleanup()
            drops += 1
            r.model = reffs.RefFS()
            new = w.root_uri().get_connection()
            need(not any(new is c for c in conns), "%s is not closed by the clean-up", w.name)
            conns[i] = new
            # also for URIs made before
            need(kept[i].listdir() == [], "%s is not empty after it was closed", w.name)
        else:
            files = sorted(p for p, v in r.model.snapshot().items() if v[0] == "f")
            if op[0] == "same":
                # a file at a path that another file system has, too
                o = rs[(i + 1) % len(rs)]
                files = sorted(p for p, v in o.model.snapshot().items() if v[0] == "f")
                if files:
                    p = files[op[2] % len(files)]
                    r.both("makedirs", lambda m: m.makedirs(p[:-1]), lambda w: w.uri(p[:-1]).makedirs())
                    r.both("write", lambda m: m.write(p, b"same"), lambda w: hist.put(w.uri(p), "wb", b"same"))
            elif not files:
                continue
            else:
                p = files[op[2] % len(files)]
                u = w.uri(p, op[3] % 4)
                if op[0] == "lock":
                    lock = u.lock(fail_on_lock=True)
                    kind, val = outcome(lock.__enter__)
                    if (i, p) in held:
                        need(kind == "err" and isinstance(val, LockFileObtainException),
                             "%s, which is held, gives %r", what, val)
                    else:
                        need(kind == "ok", "%s fails with %r, held are %s", what, val, sorted(held))
                        held[(i, p)] = lock
                        if any(q == p and j != i for j, q in held):
                            ctx.label("same path locked twice")
                elif op[0] == "unlock":
                    if (i, p) in held:
                        held.pop((i, p)).__exit__(None, None, None)
                elif op[0] == "mode":
                    u.info(dict(mode=op[4]))
                elif op[0] == "mtime":
                    u._manipulate(mtime=op[4] * 1000.0)
                elif op[0] == "watch":
                    u._manipulate(next_op_callback=lambda path, func, k=(i, p): calls.append(k))
                elif op[0] == "touch":
                    u.exists()
                elif op[0] == "open":
                    handles.append((i, p, u.open("r+b")))
                elif op[0] == "handle":
                    for j, q, h in handles:
                        if j == i:
                            h.seek(0, 2)
                            h.write(b"+")
                            r.model.look(q).data += b"+"
        need(all(j == i for j, q in calls), "%s runs the callback set on %s in %s", what,
             [q for j, q in calls], [rs[j].worlds[0].name for j, q in calls if j != i][:1])
        # locks of files that are gone
        for (j, p) in list(held):
            if rs[j].model.look(p) is None or not rs[j].model.isfile(p):
                held.pop((j, p)).__exit__(None, None, None)
        for j, o in enumerate(rs):
            worlds.check_tree(o.worlds[0], o.model, "after %s", what)
            a = o.worlds[0].attrs()
            if j != i:
                same(a, attrs[j], "modes, times and sizes in %s after %s", o.worlds[0].name, what)
            attrs[j] = a
            need(o.worlds[0].root_uri().get_connection() is conns[j] and
                 kept[j].get_connection() is conns[j],
                 "%s is another file system after %s", o.worlds[0].name, what)
    if len(acted) > 1 or (drops and acted):
        ctx.nontrivial()
    ctx.label("%d file systems" % len(rs))


def cases(tier):
    s = hist.spec(hist.ANY, 2)
    weights = [("mkdir", 2), ("makedirs", 1), ("write", 4), ("append", 1), ("symlink", 2),
               ("remove", 3), ("move", 1), ("copy", 1), ("text", 1), ("readlink", 1)]
    do = st.one_of([hist.OPS[k](s).map(list) for k, n in weights for _ in range(n)])
    w, k = st.integers(0, 2), st.integers(0, 5)
    op = st.one_of(
        *[st.tuples(st.just("do"), w, do).map(list)] * 8,
        *[st.tuples(st.just("same"), w, k).map(list)] * 3,
        *[st.tuples(st.just("lock"), w, k, k).map(list)] * 3,
        *[st.tuples(st.sampled_from(["unlock", "watch", "touch", "open", "handle"]), w, k, k).map(list)] * 4,
        st.tuples(st.just("mode"), w, k, k, st.sampled_from([0o600, 0o755, 0, 0o111])).map(list),
        st.tuples(st.just("mtime"), w, k, k, st.integers(0, 99)).map(list),
        st.tuples(st.just("drop"), w).map(list))
    return st.lists(st.integers(0, len(ADDRESSES) - 1), min_size=2, max_size=3, unique=True).flatmap(
        lambda a: st.fixed_dictionaries(dict(
            addresses=st.just(a), names=hist.pools(2, 3),
            forest=st.tuples(*[trees.trees(2, 3, 1, hist.contents(False)) for _ in a]).map(list),
            ops=st.lists(op, min_size=5, max_size=14))))


def many(case, ctx):
    """Many file systems at the same time."""
    ctx.defer(worlds.clean_registry)
    n = case["n"]

    def uri(i):
        return URI("memory:///d/f?%s=%d" % (case["key"], i)) if case["text"] else URI("memory:///d/f", **{case["key"]: i})
    for i in range(n):
        u = uri(i)
        need(not u.directory().exists(), "file system %d of %d is not empty at first", i, n)
        u.directory().mkdir()
        with u.open("wb") as f:
            f.write(b"%d" % i)
    for i in reversed(range(n)):
        with uri(i).open("rb") as f:
            same(f.read(), b"%d" % i, "content in file system %d of %d", i, n)
        if i % 2:
            uri(i).remove()
    for i in range(n):
        same(uri(i).exists(), i % 2 == 0, "existence in file system %d of %d", i, n)
    ctx.nontrivial()


CHECKS = [
    Check("histories", cases, run, 2800, 80000,
          rule="operations on at least two file systems, or one is closed and used again"),
    Check("many", lambda t: st.fixed_dictionaries(dict(
        n=st.integers(2, 300), key=st.sampled_from(["key", "x"]), text=st.booleans())), many, 40, 800, rule="every case"),
]
