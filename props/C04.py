"""C04: a backend that implements the primitive operations only gets the others right."""
import fnmatch
import hashlib

from hypothesis import strategies as st

from vh import hist, large, multi, plugin, reffs, trees, worlds
from vh.core import Check, need, outcome, same

from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform

NOLINKS = ["plug", "plugs"]
LINKS = ["plugl", "plugu"]
WEIGHTS = [("mkdir", 2), ("makedirs", 3), ("write", 3), ("append", 1), ("remove", 4), ("query", 1), ("list", 1),
           ("read", 2), ("walk", 3), ("md5", 2), ("copy", 4), ("move", 4)]


def history(case, ctx):
    r = hist.run_history(case, ctx, ("plug", "plugs"))
    if sum(r.done.get(k, 0) for k in ("makedirs", "remove", "walk", "copy", "move")) >= 2:
        ctx.nontrivial()


def link_history(case, ctx):
    r = hist.run_history(case, ctx, ("plugl", "plugu"))
    if r.throughlink and sum(r.done.get(k, 0) for k in ("remove", "walk", "makedirs")):
        ctx.nontrivial()


LINK_WEIGHTS = [("mkdir", 1), ("makedirs", 3), ("write", 2), ("symlink", 4), ("rellink", 3), ("remove", 5),
                ("query", 1), ("list", 1), ("read", 1), ("readlink", 2), ("walk", 4), ("md5", 1)]


def transfer(case, ctx):
    m = multi.run(case, ctx)
    if m.done:
        ctx.nontrivial()
    if m.crossed:
        ctx.label("crossed")


W = (("copy", 3), ("move", 2))


def nolinks(case, ctx):
    """Backends without links say so."""
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx, (case["kind"],)), ctx)
    r.plant(case["tree"])
    w = r.worlds[0]
    for sp, spell in case["ops"]:
        p = r.path(sp)
        u = w.uri(p, hist.slash(r.model, p, spell))
        same(bool(u.islink()), False, "islink of %s on a backend without links", p)
        for what, fn in (("readlink", u.readlink), ("symlink", lambda: w.uri(()).symlink(u))):
            k, v = outcome(fn)
            need(k == "err" and isinstance(v, OperationIsNotSupportedOnPlatform),
                 "%s on a backend without links gives %r", what, v)
        pattern = case["pattern"]
        if r.model.isdir(p):
            got = sorted(x.last() for x in u.glob(pattern))
            same(got, [n for n in r.model.listdir(p) if fnmatch.fnmatch(n, pattern)], "glob %r in %s", pattern, p)
            for x in u.glob(pattern):
                need(x == u / x.last(), "glob gives %s in %s", x, u)
            ctx.nontrivial()
        if r.model.isfile(p):
            same(u.md5(), hashlib.md5(r.model.read(p)).hexdigest(), "md5 of %s", p)
    worlds.check_tree(w, r.model, "after asking")


def nolink_cases(tier):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(NOLINKS), names=hist.pools(2, 4),
        tree=trees.trees(2, 4, 0, hist.contents(), min_size=1),
        ops=st.lists(st.tuples(hist.spec(["d", "d", "a", "f"], 1), hist.SPELL).map(list), min_size=1, max_size=4),
        pattern=st.sampled_from(["*", "a*", "*.*", "?", "??", "[ab]*", "[!a]*", "", ".*"]),
        membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("histories", lambda t: hist.histories(WEIGHTS, sels=["d", "d", "d", "a", "f"]), history, 1200, 50000,
          rule="at least two operations that are made of primitive ones were done"),
    Check("links", lambda t: hist.histories(LINK_WEIGHTS, links=2), link_history, 1200, 40000,
          rule="a path went through a link, and a removal, walk or creation of several directories was done"),
    Check("within", lambda t: multi.transfers([["plug"], ["plugs"], ["plug", "plug"]], W), transfer, 1000, 30000,
          rule="a transfer was done"),
    Check("between", lambda t: multi.transfers(
        [[a, b] for a in ("plug", "plugs") for b in ("local", "memory")] +
        [[b, a] for a in ("plug", "plugs") for b in ("local", "memory")] + [["plug", "plugs"]], W), transfer,
        1200, 40000, rule="a transfer was done"),
    Check("withlinks", lambda t: multi.transfers([["plugl"], ["plugu"]], W, links=2, big=False), transfer,
          1200, 40000, rule="a transfer was done"),
    Check("betweenlinks", lambda t: multi.transfers(
        [["plugl", "plugu"], ["plugu", "plugl"]] +
        [[a, b] for a in LINKS for b in ("local", "memory")] +
        [[b, a] for a in LINKS for b in ("local", "memory")], W, links=2, big=False, same=True), transfer,
        1500, 50000, rule="a transfer was done"),
    Check("nolinks", nolink_cases, nolinks, 800, 20000, rule="a directory was searched"),
    Check("large", lambda t: large.transfers([["plug"], ["plugs"], ["plug", "local"], ["memory", "plugs"]], "copy"),
          large.on(transfer), 120, 4000, rule="a transfer was done"),
    Check("largelinks", lambda t: large.transfers([["plugl"], ["plugu"], ["plugl", "local"]], "move", True),
          large.on(transfer), 80, 3000, rule="a transfer was done"),
]
