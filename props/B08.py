from hypothesis import strategies as st

from vh import hist, large, trees, worlds
from vh.core import Check, need, same
from vh.reffs import Err, Unclear


def visit(model, top, topdown, follow, cut, most=300):
    """What a walk must report; cut(path, dirs) returns the directories left after pruning."""
    out = []
    count = [0]

    def rec(p, above):
        count[0] += 1
        node = model.get(p)
        if count[0] > most or any(node is a for a in above):
            raise Unclear()
        dirs, rest = [], []
        for n in sorted(node.ch):
            (dirs if model.isdir(p + (n,)) else rest).append(n)
        if topdown:
            out.append((p, list(dirs), list(rest)))
            dirs = cut(p, dirs)
        for n in dirs:
            if follow or not model.islink(p + (n,)):
                rec(p + (n,), above + (node,))
        if not topdown:
            out.append((p, list(dirs), list(rest)))
    rec(top, ())
    return out


def run(case, ctx):
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    r.plant(case["tree"])
    names = case["names"]
    pruned = set(names[i % len(names)] for i in case["prune"])

    def cut(p, dirs):
        left = [d for d in dirs if d not in pruned]
        return left[::-1] if case["reverse"] else left
    for sp, spell, topdown, follow in case["ops"]:
        p = hist.concrete(sp, r.model, names)
        if not r.model.isdir(p):
            continue
        try:
            want = visit(r.model, p, topdown, follow, cut, case.get("most", 300))
        except Unclear:
            ctx.label("cycle left out")
            continue
        if r.model.islink(p) and spell == 4:
            spell = 0
        for w in r.worlds:
            top = w.uri(p, spell)
            base = top.path.rstrip("/")
            got = []
            for item in top.walk(topdown=topdown, followlinks=follow):
                same(len(item), 3, "length of what walk reports on %s", w.name)
                root, dirs, rest = item
                rp = root.path.rstrip("/")
                need(rp == base or rp.startswith(base + "/"), "walk of %s on %s reports %s",
                     p, w.name, root.path)
                tail = [x for x in rp[len(base):].split("/") if x]
                got.append((p + tuple(tail), list(dirs), list(rest)))
                need(root.isdir(), "walk of %s on %s reports %s, no directory", p, w.name, root.path)
                if topdown:
                    if case["inplace"]:
                        for d in list(dirs):
                            if d in pruned:
                                dirs.remove(d)
                    else:
                        dirs[:] = [d for d in dirs if d not in pruned]
                    if case["reverse"]:
                        # as with os.walk the caller decides on the order
                        dirs.reverse()
            same(got, want, "walk of %s on %s (topdown=%s, followlinks=%s, pruning %s)", p, w.name,
                 topdown, follow, sorted(pruned))
        ctx.label("down" if topdown else "up", "follow" if follow else "nofollow",
                  "%s directories" % min(6, len(want)))
        if len(want) >= 3:
            ctx.nontrivial()
    for w in r.worlds:
        worlds.check_tree(w, r.model, "after walking")


def run_together(case, ctx):
    """Walks that are under way at the same time, with other operations between their steps."""
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    r.plant(case["tree"])
    names = case["names"]
    for w in r.worlds:
        walks = []
        for sp, topdown, follow, prune in case["walks"]:
            p = hist.concrete(sp, r.model, names)
            if not r.model.isdir(p):
                continue
            out = [names[prune % len(names)]] if prune < 3 else []

            def cut(q, dirs, out=out):
                return [d for d in dirs if d not in out]
            try:
                want = visit(r.model, p, topdown, follow, cut)
            except Unclear:
                continue
            top = w.uri(p)
            walks.append([p, top, top.walk(topdown=topdown, followlinks=follow), topdown, out, want, []])
        if len(walks) > 1 and len([x for x in walks if len(x[5]) > 1]) > 1:
            ctx.nontrivial()
        left = list(walks)
        k = 0
        while left:
            which, between = case["steps"][k % len(case["steps"])]
            k += 1
            p, top, walk, topdown, out, want, got = x = left[which % len(left)]
            item = next(walk, None)
            if item is None:
                left.remove(x)
                continue
            root, dirs, rest = item
            base = top.path.rstrip("/")
            tail = [n for n in root.path.rstrip("/")[len(base):].split("/") if n]
            got.append((p + tuple(tail), list(dirs), list(rest)))
            if topdown:
                dirs[:] = [d for d in dirs if d not in out]
            need(len(got) <= len(want), "walk of %s on %s reports too much: %s", p, w.name, got[-1])
            if between == 1:
                root.listdir()
            elif between == 2:
                # everything below, at once
                list(zip(range(40), root.walk(followlinks=False)))
            elif between == 3:
                root.glob("*")
            elif between == 4:
                t = w.uri(("another place",))
                t.makedirs()
                (t / "x").makedirs()
                t.remove(recursive=True)
        for p, top, walk, topdown, out, want, got in walks:
            same(got, want, "walk of %s on %s (topdown=%s, without %s), one of %d at the same time", p,
                 w.name, topdown, out, len(walks))


def together_cases(tier):
    c = cases(tier)
    more = st.fixed_dictionaries(dict(
        walks=st.lists(st.tuples(st.one_of(st.just(["d", 0, []]), hist.spec(["d"], 0)), st.booleans(), st.booleans(),
                                 st.integers(0, 6)).map(list), min_size=2, max_size=3),
        steps=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 6)).map(list), min_size=1, max_size=10)))

    def join(t):
        out = {k: t[0][k] for k in ("names", "tree", "style", "membase")}
        out.update(t[1])
        return out
    return st.tuples(c, more).map(join)


def cases(tier):
    return st.fixed_dictionaries(dict(
        names=hist.pools(3, 5, control=True),
        tree=trees.trees(4, 5 if tier == "thorough" else 4, 1, st.just("x"), min_size=3, dirs=4),
        ops=st.lists(st.tuples(st.one_of(st.just(["d", 0, []]), hist.spec(["d", "l"], 0)), hist.SPELL, st.booleans(),
                               st.booleans()).map(list), min_size=2, max_size=5),
        prune=st.one_of(st.just([]), st.lists(st.integers(0, 4), max_size=2)),
        inplace=st.booleans(), reverse=st.sampled_from([False, False, False, True]),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("walks", cases, run, 2800, 90000, rule="at least three directories are reported"),
    Check("together", together_cases, run_together, 1200, 40000,
          rule="two walks of several directories are under way at the same time"),
    Check("large", lambda t: st.fixed_dictionaries(dict(
        large.WHERE, tree=large.trees(False, False), most=st.just(1000),
        ops=st.lists(st.tuples(large.DIR, hist.SPELL, st.booleans(), st.booleans()).map(list), min_size=1, max_size=2),
        prune=st.one_of(st.just([]), st.lists(st.integers(large.K, large.K + 90), max_size=2)),
        inplace=st.booleans(), reverse=st.booleans())), large.on(run), 150, 5000,
        rule="at least three directories are reported"),
]
