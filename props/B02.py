from hypothesis import strategies as st

from vh import hist
from vh.core import Check

WEIGHTS = [("mkdir", 2), ("makedirs", 1), ("write", 3), ("append", 2), ("update", 1), ("text", 1),
           ("remove", 2), ("query", 2), ("list", 2), ("read", 2), ("peek", 2), ("readlink", 2), ("walk", 2),
           ("md5", 1)]
SELS = ["d", "d", "a", "f", "l", "l"]


def run(case, ctx):
    r = hist.run_history(case, ctx)
    label(r, case, ctx)


def run_local(case, ctx):
    r = hist.run_history(case, ctx, ("local",))
    label(r, case, ctx)


def label(r, case, ctx):
    if r.throughlink:
        ctx.label("through a link")
    links = [v for v in r.model.snapshot().values() if v[0] == "l"]
    if r.throughlink >= 2 and r.done.get("symlink", 0) >= 1:
        ctx.nontrivial()
    ctx.label("links %s" % min(5, len(links)), case["style"])


def chain_cases(tier):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 30), end=st.sampled_from(["f", "d", "missing", "loop"]),
        at=st.integers(0, 29), inside=st.booleans(),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES),
        names=hist.pools(3, 4)))


def run_chain(case, ctx):
    """A chain of n links that ends in a file, a directory, nothing or itself."""
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    m = r.model
    n, end = case["n"], case["end"]
    a, b = case["names"][0], case["names"][1]
    pre = (a,) if case["inside"] else ()
    if pre:
        m.mkdir(pre)
    if end == "f":
        m.write(pre + ("end",), b"content")
    elif end == "d":
        m.mkdir(pre + ("end",))
        m.write(pre + ("end", b), b"inner")
    for i in range(n):
        t = pre + ("link%d" % (i + 1),) if i < n - 1 else (
            pre + ("link%d" % (case["at"] % n),) if end == "loop" else pre + ("end",))
        m.symlink(("/",) + t, pre + ("link%d" % i,))
    for w in r.worlds:
        w.build(m)
    # the names of the steps below
    r.names = ["link0", "link%d" % (n - 1), b, "new"]
    k = len(pre)
    d = ["d", k, []]

    def at(*idx):
        return ["d", k, list(idx)]
    for op in (["query", at(0), 0], ["query", at(1), 2], ["read", at(0), 0], ["list", at(0), 4],
               ["readlink", at(0), 0], ["list", at(0, 2), 0], ["read", at(0, 2), 0],
               ["write", at(0, 3), 0, "new content", "wb"], ["mkdir", at(0, 2), 0],
               ["append", at(0), 0, "more", "ab"], ["walk", d, 0, True, False],
               ["write", at(0), 0, "again", "wb"], ["md5", at(0), 0],
               ["symlink", at(2), at(0), 0], ["mkdir", at(0), 0], ["remove", at(0, 3), 0, False],
               ["remove", at(0), 0, True], ["query", at(1), 0]):
        r.step(op)
    r.finish()
    ctx.label(end)
    if n > 1:
        ctx.nontrivial()


CHECKS = [
    Check("histories", lambda t: hist.histories(
        WEIGHTS + [("symlink", 6)], sels=SELS, max_size=30 if t == "thorough" else 18, links=2), run, 2000, 90000,
        rule="a link was made and at least two operations used a path with a link in it"),
    Check("relative", lambda t: hist.histories(
        WEIGHTS + [("rellink", 6)], sels=SELS, max_size=30 if t == "thorough" else 16, links=2), run_local, 600, 30000,
        rule="a link (relative or absolute) was made locally and used at least twice"),
    Check("chains", chain_cases, run_chain, 250, 6000, rule="more than one link in the chain"),
]
