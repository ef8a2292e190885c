"""Trees that are large in one respect: many entries, deep, long contents."""
from hypothesis import strategies as st

from vh import hist

FIRST = ["a", "new", "zz", "f"]
NAMES = FIRST + ["n%d" % i for i in range(600)]
K = len(FIRST)
BIG = [65535, 65536, 65537, 100000, 131072, 131073, 200000, 262145, 524289, 1048575, 1048576, 1048577, 1500000, 2097153, 4194305]


def sizes():
    return st.one_of(st.sampled_from(BIG), st.integers(30000, 5 << 20))


def wide(n, step, links):
    """A directory of n entries."""
    out = []
    for i in range(n):
        if step and i % step == step - 1:
            node = ["d", [[3, ["f", "in %d" % i]]] if i % 2 else []]
        elif links and i % 3 == 1:
            node = ["l", i, []]
        else:
            node = ["f", "content %d" % i]
        out.append([K + i, node])
    return out


def deep(n, width, links):
    """A directory with n levels below it."""
    out = [[3, ["f", "at the end"]]]
    for i in range(n):
        out = [[K + i % 7 if width else K, ["d", out]]] + [[K + 10 + j, ["f", "%d %d" % (i, j)]] for j in range(width)]
        if links and i % 4 == 1:
            out.append([K + 20, ["l", i, []]])
    return out


def trees(links=False, contents=True, most=400, deepest=90):
    """Below the directory 'a'; beside it an empty directory 'zz'."""
    opts = [st.builds(wide, st.one_of(st.integers(30, 140), st.integers(30, most)), st.sampled_from([0, 2, 5, 50]),
                      st.booleans() if links else st.just(False)),
            st.builds(deep, st.one_of(st.integers(8, 40), st.integers(8, deepest)), st.integers(0, 2),
                      st.booleans() if links else st.just(False))]
    if contents:
        opts.append(st.builds(lambda off, n: [[3, ["f", [off, n]]]], st.integers(0, 999), sizes()))
    return st.one_of(opts).map(lambda t: [[0, ["d", t]], [2, ["d", []]]])


WHERE = dict(style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES))
TOP = ["d", 1, []]      # the directory 'a'
TO = [["d", 0, [1]], ["d", 0, [2]], ["d", 0, [1]], ["d", 0, [2, 1]], ["d", 0, [1, 2]]]


def on(run):
    """Run on a case of a large tree; its names are not part of the case."""
    return lambda case, ctx: run(dict(case, names=NAMES), ctx)


def transfers(kinds, name, links=False, flags=(2,)):
    """One copy or move of all of it."""
    w = st.integers(0, 1)
    if name == "copy":
        op = st.tuples(st.just("copy"), w, st.just(TOP), w, st.sampled_from(TO), hist.SPELL, st.sampled_from(flags),
                       st.booleans(), st.lists(st.integers(K, K + 90), max_size=1), st.integers(0, 4)).map(list)
    else:
        op = st.tuples(st.just("move"), w, st.just(TOP), w, st.sampled_from(TO), hist.SPELL).map(list)
    tree = trees(links)
    return st.sampled_from(kinds).flatmap(lambda ks: st.fixed_dictionaries(dict(
        dict(WHERE, membase=st.just("same")) if links else WHERE, kinds=st.just(ks), relative=st.just(False),
        forest=st.tuples(tree, st.one_of(tree, st.just([[2, ["d", []]]]))).map(list) if len(ks) > 1
        else st.tuples(tree).map(list), ops=st.lists(op, min_size=1, max_size=2))))


def at(p):
    """The entry of the tree with these names."""
    return ["d", 0, [NAMES.index(n) for n in p]]


def ops(*opts):
    return st.lists(st.one_of(*[o.map(list) for o in opts]), min_size=2, max_size=6)


DIR = st.one_of(st.just(TOP), st.just(TOP), st.tuples(st.just("d"), st.integers(0, 400), st.just([])).map(list))
FILE = st.tuples(st.just("f"), st.integers(0, 400), st.just([])).map(list)
NEW = st.tuples(st.sampled_from(["d", "n"]), st.integers(0, 400), st.just([1])).map(list)
CONTENT = st.tuples(st.integers(0, 999), st.sampled_from([5] + BIG)).map(list)


def histories(**kw):
    """Reading, writing and asking in a large tree."""
    return st.fixed_dictionaries(dict(
        WHERE, tree=trees(), lazy=st.just(False), **dict(kw, ops=ops(
            st.tuples(st.just("list"), DIR, hist.SPELL), st.tuples(st.just("read"), FILE, hist.SPELL),
            st.tuples(st.just("write"), NEW, hist.SPELL, CONTENT, st.just("wb")),
            st.tuples(st.just("append"), FILE, hist.SPELL, CONTENT, st.just("ab")),
            st.tuples(st.just("update"), FILE, hist.SPELL, st.integers(0, 70000), CONTENT),
            st.tuples(st.just("makedirs"), st.tuples(st.sampled_from(["d", "n"]), st.integers(0, 400), st.lists(
                st.integers(1, 40), min_size=1, max_size=40)).map(list), hist.SPELL),
            st.tuples(st.just("walk"), DIR, hist.SPELL, st.booleans(), st.booleans()),
            st.tuples(st.just("md5"), FILE, hist.SPELL),
            st.tuples(st.just("query"), DIR, hist.SPELL),
            st.tuples(st.just("remove"), DIR, hist.SPELL, st.booleans())))))
