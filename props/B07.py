from hypothesis import strategies as st

from vh import hist, large, trees
from vh.core import Check

NAMES = ["a", "aa", "a.b", ".a", "a b", "b", "ab", "-a"]


def run(case, ctx):
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    r.plant(case["tree"])
    gone = 0
    for sp, spell, recursive, direct in case["ops"]:
        before = len(r.model.paths())
        p = r.path(sp)
        kind = r.model.look(p, False)
        r.op_remove(sp, spell, recursive)
        gone = max(gone, before - len(r.model.paths()))
        if kind is not None:
            ctx.label("%s%s" % (kind.kind, " recursively" if recursive else ""))
        r.op_query(sp, 0) if r.model.look(p[:-1]) is not None else None
    r.finish()
    if gone >= 1 and r.model.paths():
        ctx.nontrivial()
    if gone >= 3:
        ctx.label("removed a tree")


def cases(tier):
    return st.fixed_dictionaries(dict(
        names=st.one_of(hist.pools(2, 4), st.lists(st.sampled_from(NAMES), min_size=3, max_size=4,
                                                   unique=True)),
        tree=trees.trees(4 if tier == "thorough" else 3, 4, 2, hist.contents(False), min_size=2),
        ops=st.lists(st.tuples(hist.spec(["a", "d", "d", "f", "l", "l"], 0), hist.SPELL,
                               st.sampled_from([True, True, False]), st.just(0)).map(list),
                     min_size=1, max_size=4),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("trees", cases, run, 2400, 80000,
          rule="something was removed and something is left"),
    Check("large", lambda t: st.fixed_dictionaries(dict(
        large.WHERE, tree=large.trees(True, False), ops=st.lists(st.tuples(
            st.one_of(st.just(large.TOP), large.DIR, large.FILE), hist.SPELL, st.sampled_from([True, True, False]),
            st.just(0)).map(list), min_size=1, max_size=3))), large.on(run), 120, 4000,
        rule="something was removed and something is left"),
]
