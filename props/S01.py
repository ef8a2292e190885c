"""S01: threads that work on separate entries do not disturb one another."""
import hashlib

from hypothesis import strategies as st

from abl.vpath.base import URI

from vh import hist, sched, worlds
from vh.core import Check, need, outcome, same
from vh.hist import Runner

KINDS = ["mkdir", "makedirs", "write", "append", "text", "update", "symlink", "remove", "copy", "move",
         "query", "list", "read", "readtext", "readlink", "walk", "md5"]


class Place(worlds.World):
    """A directory of one's own on a backend that all share, reached through a shared URI."""

    def __init__(self, inner, shared, name):
        self.inner, self.shared, self.own = inner, shared, name
        worlds.World.__init__(self, inner.base + "/" + name)
        self.name = inner.name

    def abs_base(self):
        return self.inner.abs_base() + "/" + self.own

    def text(self, p):
        return self.inner.text((self.own,) + tuple(p))

    def root_uri(self):
        return self.shared / self.own

    def target_uri(self, target):
        return self.inner.target_uri(("/", self.own) + tuple(target[1:]) if target and target[0] == "/"
                                     else target)

    def snapshot(self):
        out = {}

        def rec(u, path):
            for name in u.listdir():
                v, p = u / name, path + (name,)
                if v.islink():
                    out[p] = ("l", self.target_of(v.readlink().path))
                elif v.isdir():
                    out[p] = ("d",)
                    rec(v, p)
                else:
                    with v.open("rb") as f:
                        out[p] = ("f", f.read())
        rec(self.root_uri(), ())
        return out

    def build(self, model):
        worlds.MemWorld.build(self, model)


def locked(r, op):
    """Take the lock of a file of one's own and write."""
    p = r.path(op[1])
    if not p or not r.model.isfile(p) or r.links_in(p):
        return
    text = "locked %d" % op[2]
    r.both("lock of %s" % (p,), lambda m: m.append(p, text.encode()), lambda w: take(w.uri(p), text))


def take(u, text):
    with u.lock(fail_on_lock=True) as f:
        f.write(text)


def globbed(r, op):
    p = r.path(op[1])
    if not r.model.isdir(p) or r.links_in(p):
        return
    letter = op[2]
    def on_model(m):
        return sorted(n for n in m.listdir(p) if letter in n and "/" not in n)
    if letter in "*?[]":
        return
    r.value("glob in %s" % (p,), on_model,
            lambda w: [x.last() for x in w.uri(p).glob("*" + letter + "*")])


def end(k):
    return b"end of %d" % k * 3000


def split(case, ctx):
    ctx.defer(worlds.clean_registry)
    n = len(case["plans"])
    made = {}
    for name in case["where"]:
        if name == "other":
            made[name] = worlds.MemWorld(case["membase"], fs="2")
        elif name not in made:
            made[name] = hist.make_worlds(case, ctx, (name,))[0]
    inners = [made[case["where"][k]] for k in range(n)]
    roots = {name: w.root_uri() for name, w in made.items()}
    shareds = [roots[case["where"][k]] for k in range(n)]
    runners = []
    for k in range(n):
        inner, shared = inners[k], shareds[k]
        (shared / ("t%d" % k)).mkdir()
        r = Runner(case["names"], [Place(inner, shared, "t%d" % k)], ctx, lazy=True)
        r.model.open = True
        r.plant(case["tree"])
        runners.append(r)

    chains = []
    for k in range(n):
        inner, shared = inners[k], shareds[k]
        top = shared / ("chain%d" % k)
        top.mkdir()
        last = top / "file"
        with last.open("wb") as f:
            f.write(end(k))
        for i in range(case["chain"]):
            link = top / ("l%d" % i)
            inner.target_uri(("/", "chain%d" % k, last.last())).symlink(link)
            last = link
        chains.append(last)

    def plan(k):
        def work():
            r, shared = runners[k], shareds[k]
            mates = [i for i in range(n) if shareds[i] is shared]
            for op in case["plans"][k]:
                if op[0] == "lock":
                    locked(r, op)
                elif op[0] == "glob":
                    globbed(r, op)
                elif op[0] == "base":
                    need(shared.isdir() and shared.exists() and not shared.isfile(),
                         "the common directory %s is not one", shared)
                    same([x for x in shared.listdir() if x[0] != "s"],
                         sorted(["t%d" % i for i in mates] + ["chain%d" % i for i in mates]),
                         "the common directory")
                elif op[0] == "side":
                    # an entry next to those of the others
                    own = shared / ("side%d" % k)
                    with own.open("wb") as f:
                        f.write(b"side")
                    need("side%d" % k in shared.listdir(), "%s is missing in its directory", own)
                    own.remove()
                    need(not own.exists() and "side%d" % k not in shared.listdir(),
                         "%s is still there", own)
                elif op[0] == "chain":
                    need(chains[k].isfile(), "the end of the chain of links %s is no file", chains[k])
                    with chains[k].open("rb") as f:
                        same(f.read(), end(k), "the end of the chain of links %s", chains[k])
                elif op[0] == "dup":
                    v = shared / ("chain%d" % k) / "dup"
                    chains[k].copy(v)
                    with v.open("rb") as f:
                        same(f.read(), end(k), "copy %s", v)
                    same(v.md5(), hashlib.md5(end(k)).hexdigest(), "checksum of %s", v)
                    v.remove()
                else:
                    r.step(op)
            r.finish()
        return work

    b = sched.Baton([plan(k) for k in range(n)], case["schedule"], case["skip"])
    b.run()
    for r in runners:
        r.finish()
    if b.switches > 3 and sum(len(r.done) for r in runners) > 3:
        ctx.nontrivial()
    ctx.label("one backend" if len(made) == 1 else "several backends")


STEPS = st.one_of(st.integers(0, 6), st.integers(0, 40), st.integers(10, 120))
SCHEDULE = st.lists(st.tuples(STEPS, st.integers(0, 2)).map(list), min_size=2, max_size=12)


@st.composite
def plans(draw, ops, most):
    """Threads that do much the same kind of thing."""
    kinds = draw(st.lists(st.sampled_from(sorted(ops)), min_size=1, max_size=4))
    op = st.sampled_from(kinds).flatmap(ops.get)
    anything = st.one_of([ops[k] for k in sorted(ops)])
    return draw(st.lists(st.lists(st.one_of(op, op, op, anything), min_size=2, max_size=most),
                         min_size=2, max_size=3))


def cases(tier):
    s = hist.spec(hist.ANY, 2)
    ops = {k: hist.OPS[k](s).map(list) for k in KINDS}
    ops.update(
        lock=st.tuples(st.just("lock"), hist.spec(["f", "f", "a"], 0), st.integers(0, 9)).map(list),
        glob=st.tuples(st.just("glob"), hist.spec(["d", "d", "a"], 0), st.sampled_from("abx")).map(list),
        base=st.just(["base"]), side=st.just(["side"]), chain=st.just(["chain"]), dup=st.just(["dup"]))
    from vh import trees
    return st.fixed_dictionaries(dict(
        names=hist.pools(), tree=trees.trees(2, 3, 1, hist.contents(False)),
        plans=plans(ops, 8), chain=st.sampled_from([1, 5, 20, 30]),
        schedule=SCHEDULE, skip=st.sampled_from([0, 0, 300, 1000, 3000]),
        where=st.one_of(st.sampled_from([["local"] * 3, ["memory"] * 3, ["memory"] * 3]),
                        st.lists(st.sampled_from(["local", "memory", "other"]), min_size=3, max_size=3)),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES)))


# -- archives ------------------------------------------------------------------------

def archives(case, ctx):
    ctx.defer(worlds.clean_registry)
    inner = hist.make_worlds(case, ctx, (case["world"],))[0]
    models = [{} for _ in case["plans"]]

    def plan(k):
        root = URI("zip://((%s))/" % inner.uri(("z%d.zip" % k,)))

        def work():
            m = models[k]
            for op in case["plans"][k]:
                u = root / op[1]
                if op[0] == "write":
                    data = b"%d " % k + hist.content(op[2])
                    with u.open("w") as f:
                        f.write(data)
                    m[op[1]] = data
                elif op[0] == "read":
                    kind, got = outcome(lambda: u.open("r").read())
                    need((kind == "ok") == (op[1] in m), "reading %s gives %r", u, got)
                    if kind == "ok":
                        same(got, m[op[1]], "content of %s", u)
                elif op[0] == "list":
                    if m:
                        same(sorted(root.listdir()), sorted(m), "members of %s", root)
                else:
                    same(bool(u.exists()), op[1] in m, "existence of %s", u)
        return work

    b = sched.Baton([plan(k) for k in range(len(models))], case["schedule"], case["skip"])
    b.run()
    for k, m in enumerate(models):
        root = URI("zip://((%s))/" % inner.uri(("z%d.zip" % k,)))
        if m:
            same(sorted(root.listdir()), sorted(m), "members of %s in the end", root)
        for name, data in m.items():
            same((root / name).open("r").read(), data, "content of %s in the end", root / name)
    if b.switches > 3 and sum(map(bool, models)) > 1:
        ctx.nontrivial()


def zipcases(tier):
    name = st.sampled_from(["a", "b", "c d"])
    op = st.one_of(*[st.tuples(st.just("write"), name, hist.contents(False)).map(list)] * 2,
                   st.tuples(st.just("read"), name).map(list), st.just(["list", "a"]),
                   st.tuples(st.just("exists"), name).map(list))
    return st.fixed_dictionaries(dict(
        plans=st.lists(st.lists(op, min_size=2, max_size=6), min_size=2, max_size=3),
        schedule=SCHEDULE, skip=st.sampled_from([0, 0, 300, 1000, 3000]), world=st.sampled_from(["local", "memory"]),
        style=st.just("abs"), membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("split", cases, split, 1600, 40000,
          rule="the threads are switched more than three times amid more than three kinds of operations"),
    Check("archives", zipcases, archives, 800, 16000,
          rule="at least two threads write to archives of their own and are switched more than three times"),
]
