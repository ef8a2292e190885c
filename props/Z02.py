"""Z02: archives are always valid and keep earlier members."""
from hypothesis import strategies as st

from vh import large, hist, trees, worlds, zips
from vh.core import Check, outcome, same


class Stop(Exception):
    pass


def build(case, ctx):
    ctx.defer(worlds.clean_registry)
    w = zips.ZipWorld(ctx.dir(), case["storage"], case["archive"])
    return w


def run_writes(case, ctx):
    w = build(case, ctx)
    names = case["names"]
    m = zips.ZipRef()
    spec = case["spec"]
    kept = {}
    if spec is not None:
        trees.plant(m, case["tree"], names)
        w.put_raw(zips.foreign(m, spec))
        kept = w.members()
        if not spec["dirs"]:
            m = zips.implied(m)
    held = []
    closed = []
    ctx.defer(lambda: [outcome(h[1].close) for h in held])
    writes = 0

    def complete(p, data, what):
        m.write(p, data)
        kept[p] = data
        w.check_members(m, "after %s", what)
        got = w.members()
        for q in kept:
            # directory entries of the other tool, too
            same(got.get(q), kept[q], "member %s after %s", "/".join(q), what)

    for op in case["ops"]:
        if op[0] == "drop":
            for h in held[:]:
                h[1].close()
                complete(h[0], h[2], "closing %s" % (h[0],))
                held.remove(h)
            w.drop()
        elif op[0] == "look":
            p = hist.concrete(op[1], m, names)
            u = w.uri(p)
            if op[2] == 0:
                u.exists()
            elif op[2] == 1 and m.isfile(p):
                u.open("rb").close()
            elif op[2] == 2:
                outcome(u.open, "rb")
            elif m.isdir(p):
                u.listdir()
        elif op[0] == "again":
            # nothing is left to do for it
            if closed:
                raw = w.raw()
                closed[op[1] % len(closed)].close()
                same(w.raw(), raw, "bytes of the archive after a handle was closed once more")
                ctx.label("closed again")
        elif op[0] == "finish":
            if held:
                h = held.pop(op[1] % len(held))
                h[1].close()
                closed.append(h[1])
                complete(h[0], h[2], "closing %s" % (h[0],))
                ctx.label("held open")
                writes += 1
        else:
            p = hist.concrete(op[1], m, names)
            if not m.fits(p) or any(q != p and (q == p[:len(q)] or p == q[:len(p)]) for q, _, _ in held):
                continue
            parts = [hist.content(c) for c in op[3]]
            data = b"".join(parts)
            u = w.uri(p, 0 if op[2] == 4 else op[2])
            how = op[4]
            if how == 3:
                f = u.open("wb")
                for c in parts:
                    f.write(c)
                held.append((p, f, data))
                continue
            ctx.label("rewritten" if m.isfile(p) else "new")
            if how == 0:
                with u.open("wb") as f:
                    for c in parts:
                        f.write(c)
            elif how == 1:
                f = u.open("wb")
                for c in parts:
                    f.write(c)
                f.close()
                closed.append(f)
            else:
                try:
                    with u.open("w") as f:
                        for c in parts:
                            f.write(c)
                        raise Stop()
                except Stop:
                    pass
            complete(p, data, "%s of %s" % (op[0], p))
            writes += 1
    for h in held[:]:
        h[1].close()
        complete(h[0], h[2], "closing %s" % (h[0],))
        held.remove(h)
    w.check_members(m, "at the end")
    worlds.check_tree(w, m, "at the end")
    u = w.root_uri()
    conn = u.get_connection()
    u.exists()
    w.drop()
    same(w.left_open(), [], "descriptors of the archive after its connection was closed")
    del conn
    if writes > 1 or (writes and len(kept) > 1):
        ctx.nontrivial()
    ctx.label("foreign" if spec is not None else "own")


def run_foreign(case, ctx):
    """Another tool's archive is read with exactly its members."""
    w = build(case, ctx)
    names = case["names"]
    m = zips.ZipRef()
    spec = case["spec"]
    trees.plant(m, case["tree"], names)
    raw = zips.foreign(m, spec)
    w.put_raw(raw)
    if not spec["dirs"]:
        m = zips.implied(m)
    first = case["first"]
    p = hist.concrete(first[0], m, names)
    u = w.uri(p)
    q = ("exists", "isfile", "isdir")[first[1]]
    same(bool(getattr(u, q)()), getattr(m, q)(p), "%s of %s, asked first", q, p)
    worlds.check_tree(w, m, "archive of another tool")
    for p in [()] + m.paths():
        for q in ("exists", "isfile", "isdir"):
            same(bool(getattr(w.uri(p, 2), q)()), getattr(m, q)(p), "%s of %s", q, p)
        for n in names:
            c = p + (n,)
            same(bool(w.uri(c).exists()), m.exists(c), "exists of %s", c)
            c = p[:-1] + (p[-1] + n,) if p else (n + n,)
            same(bool(w.uri(c).exists()), m.exists(c), "exists of %s", c)
    same(w.raw(), raw, "bytes of an archive that was only read")
    if len(m.paths()) > 1:
        ctx.nontrivial()
    ctx.label("directory entries" if spec["dirs"] else "members only")


def common(**kw):
    return st.fixed_dictionaries(dict(
        kw, names=zips.pools(), archive=zips.archives(), storage=st.sampled_from(zips.STORAGES)))


def write_cases(tier):
    s = st.one_of(hist.spec(["d", "d", "a"], 2), hist.spec(["f"], 0))
    chunks = st.one_of(st.lists(hist.contents(False), max_size=3), hist.contents().map(lambda x: [x]))
    op = st.one_of(
        *[st.tuples(st.just("write"), s, hist.SPELL, chunks, st.integers(0, 3)).map(list)] * 5,
        st.tuples(st.just("finish"), st.integers(0, 3)).map(list),
        st.tuples(st.just("again"), st.integers(0, 3)).map(list),
        st.tuples(st.just("drop")).map(list),
        *[st.tuples(st.just("look"), s, st.integers(0, 3)).map(list)] * 2)
    return common(spec=st.one_of(st.none(), zips.SPECS), tree=trees.trees(2, 3, 0, hist.contents(False)),
                  ops=st.lists(op, min_size=2, max_size=10))


def foreign_cases(tier):
    return common(spec=zips.SPECS, tree=trees.trees(3, 4, 0, hist.contents(), min_size=1),
                  first=st.tuples(hist.spec(["d", "a", "f"], 1), st.integers(0, 2)).map(list))


def large_cases(tier):
    chunks = large.CONTENT.map(lambda c: [c])
    op = st.one_of(
        st.tuples(st.just("write"), large.NEW, hist.SPELL, chunks, st.integers(0, 3)).map(list),
        st.tuples(st.just("write"), large.FILE, hist.SPELL, chunks, st.integers(0, 3)).map(list),
        st.tuples(st.just("drop")).map(list))
    return st.fixed_dictionaries(dict(
        spec=zips.SPECS, tree=large.trees(), ops=st.lists(op, min_size=1, max_size=4), archive=zips.archives(),
        storage=st.sampled_from(zips.STORAGES)))


CHECKS = [
    Check("writes", write_cases, run_writes, 3000, 80000,
          rule="several members are written, or one into an archive with members"),
    Check("foreign", foreign_cases, run_foreign, 2000, 50000,
          rule="an archive made by another tool has at least two entries"),
    Check("large", large_cases, large.on(run_writes), 100, 3000,
          rule="several members are written, or one into an archive with members"),
]
