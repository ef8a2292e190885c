"""Generated trees: nested [[name index, node], ...] with node ["f", content],
["l", k, [name indices]] (link to the k-th path of the tree, names below it) or ["d", tree]."""
from hypothesis import strategies as st

from vh import hist, reffs


def nodes(depth, width, links, content, dirs):
    f = st.tuples(st.just("f"), content).map(list)
    opts = [f]
    if links:
        opts += [st.tuples(st.just("l"), st.integers(0, 15),
                           st.sampled_from([[], [], [], [0], [1], [0, 1]])).map(list)] * links
    if depth > 0:
        sub = trees(depth - 1, width, links, content, 1 if dirs > 2 else 0, dirs)
        opts += [st.tuples(st.just("d"), sub).map(list)] * dirs
        if dirs > 2:
            opts.append(st.just(["d", []]))
    return st.one_of(opts)


def trees(depth=3, width=4, links=0, content=None, min_size=0, dirs=2):
    content = content if content is not None else hist.contents()
    return st.lists(st.tuples(st.integers(0, 5), st.deferred(
        lambda: nodes(depth, width, links, content, dirs))).map(list),
        min_size=min_size, max_size=width)


def plant(model, tree, names, at=(), relative=False):
    """Create the tree in the model below `at` (an existing directory)."""
    links, paths = [], []

    def rec(entries, p):
        for i, node in entries:
            q = p + (names[i % len(names)],)
            if model.look(q, False) is not None:
                continue
            paths.append(q)
            if node[0] == "d":
                model.mkdir(q)
                rec(node[1], q)
            elif node[0] == "f":
                model.write(q, hist.content(node[1]))
            else:
                # a placeholder until all paths are known
                model.symlink(("/",), q)
                links.append((q, node))
    rec(tree, at)
    everything = model.paths()
    for q, node in links:
        t = everything[node[1] % len(everything)]
        t = t + tuple(names[i % len(names)] for i in node[2])
        if relative:
            k = 0
            while k < len(q) - 1 and k < len(t) - 1 and q[k] == t[k]:
                k += 1
            model.get(q, False).target = ("..",) * (len(q) - 1 - k) + t[k:]
        else:
            model.get(q, False).target = ("/",) + t
    return paths
