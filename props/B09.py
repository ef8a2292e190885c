from hypothesis import strategies as st

from vh import gen, hist, large, trees, worlds
from vh.core import Check, need, same


def parse(pattern):
    """Shell pattern as a list of ('*',), ('?',), ('c', char), ('[', negated, items)."""
    out = []
    i = 0
    while i < len(pattern):
        c = pattern[i]
        i += 1
        if c == "*":
            out.append(("*",))
        elif c == "?":
            out.append(("?",))
        elif c == "[":
            j = i
            if j < len(pattern) and pattern[j] == "!":
                j += 1
            if j < len(pattern) and pattern[j] == "]":
                j += 1
            while j < len(pattern) and pattern[j] != "]":
                j += 1
            if j >= len(pattern):
                out.append(("c", "["))
                continue
            body = pattern[i:j]
            i = j + 1
            neg = body.startswith("!")
            if neg:
                body = body[1:]
            items = []
            k = 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    items.append((body[k], body[k + 2]))
                    k += 3
                else:
                    items.append((body[k], body[k]))
                    k += 1
            out.append(("[", neg, items))
        else:
            out.append(("c", c))
    return out


def match(tokens, name):
    """Does the whole name match?  Set of positions, token by token."""
    pos = {0}
    for t in tokens:
        new = set()
        for p in pos:
            if t[0] == "*":
                new.update(range(p, len(name) + 1))
            elif p < len(name):
                c = name[p]
                if t[0] == "?":
                    new.add(p + 1)
                elif t[0] == "c":
                    if c == t[1]:
                        new.add(p + 1)
                elif any(a <= c <= z for a, z in t[2]) != t[1]:
                    new.add(p + 1)
        pos = new
    return len(name) in pos


def run(case, ctx):
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    r.plant(case["tree"])
    hits = total = 0
    for sp, spell, pattern in case["ops"]:
        p = hist.concrete(sp, r.model, case["names"])
        if not r.model.isdir(p):
            continue
        tokens = parse(pattern)
        children = r.model.listdir(p)
        want = [n for n in children if match(tokens, n)]
        for w in r.worlds:
            top = w.uri(p, 0 if r.model.islink(p) else spell)
            got = list(top.glob(pattern))
            paths = [u.path for u in got]
            same(paths, [top.path.rstrip("/") + "/" + n for n in want], "glob of %r in %s on %s",
                 pattern, p, w.name)
            for u, n in zip(got, want):
                need(u == top / n, "glob of %r on %s reports %r", pattern, w.name, str(u))
                same(u.isdir(), r.model.isdir(p + (n,)), "kind of the globbed %s", n)
        hits += len(want)
        total += len(children)
    if 0 < hits < total:
        ctx.nontrivial()
    ctx.label("some" if 0 < hits < total else "all" if hits else "none")


def pattern_for(names):
    part = st.one_of(
        st.sampled_from(["*", "*", "?", "[a-c]", "[!a-c]", "[abc]", "[!.]", "[0-9]", "a", "b", ".",
                         "[]]", "[!]]", "[", "]", "[a", "[-a]", "[a-]", "-", "+", "(", "{", "|", "^",
                         "$", "#", "[A-Z]", "[*]", "[?]", "[[]", "[a\u00fc]", "A", " "]))
    whole = st.sampled_from(names)

    def cut(t):
        n, i, j, s = t
        i, j = i % (len(n) + 1), j % (len(n) + 1)
        return n[:min(i, j)] + s + n[max(i, j):]
    return st.one_of(
        st.lists(part, min_size=0, max_size=5).map("".join),
        whole,
        st.tuples(whole, st.integers(0, 6), st.integers(0, 6), part).map(cut),
        whole.map(lambda n: n[:1] + "*"), whole.map(lambda n: "*" + n[-1:]),
        whole.map(lambda n: "*" + n[1:2] + "*"))


def ok(pattern):
    """Ranges that run backwards have no agreed meaning, nor does [^ in shells."""
    for t in parse(pattern):
        if t[0] == "[" and (any(a > z for a, z in t[2]) or
                            any("-" in (a, z) and a != z for a, z in t[2])):
            return False
    for i in range(len(pattern) - 1):
        if pattern[i] == "[" and pattern[i + 1] == "^":
            return False
    for bad in ("--", "&&", "||", "~~"):
        if bad in pattern:
            return False
    return True


def cases(tier):
    pool = st.lists(st.one_of(gen.names(control=True),
                              st.sampled_from(["a", "b", "ab", "abc", "aB", "A", ".a", "a.b", "b.a",
                                               "a1", "a]", "[a]", "a-b", "^a"]),
                              # not to be taken for anything but names
                              st.sampled_from(["$HOME", "${HOME}", "$PATH", "~", "~root", "%41", "{a,b}", "a,b", "!a",
                                               "a;b", "a|b", ".*", "**", "@(a)"])),
                    min_size=3, max_size=7, unique=True)
    pool = gen.alike(pool, control=True)
    return pool.flatmap(lambda names: st.fixed_dictionaries(dict(
        names=st.just(names),
        tree=st.lists(st.tuples(st.integers(0, 6), st.one_of(
            st.just(["f", "x"]), st.just(["d", []]), st.just(["l", 0, []]),
            trees.trees(0, 3, 0, st.just("y")).map(lambda t: ["d", t]))).map(list),
            min_size=3, max_size=8),
        ops=st.lists(st.tuples(hist.spec(["d"], 0).map(lambda s: [s[0], s[1] // 3, []]),
                               st.sampled_from([0, 1, 2, 3, 4]),
                               pattern_for(names).filter(ok)).map(list), min_size=2, max_size=6),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES))))


CHECKS = [
    Check("patterns", cases, run, 3200, 100000, rule="some but not all children match"),
    Check("large", lambda t: st.fixed_dictionaries(dict(
        large.WHERE, tree=large.trees(True, False),
        ops=st.lists(st.tuples(large.DIR, st.sampled_from([0, 1, 2, 3, 4]), st.sampled_from(
            ["*", "n*", "*1", "n?", "n??", "n[1-3]*", "*[!0-4]", "n1*9", "n399", "?*?*?*"])).map(list),
            min_size=1, max_size=4))), large.on(run), 120, 4000, rule="some but not all children match"),
]
