"""Z01: a zip archive behaves like a read/write file tree."""
from hypothesis import strategies as st

from vh import hist, large, trees, worlds, zips
from vh.core import Check, need, outcome, same

from abl.vpath.base.exceptions import FileDoesNotExistError


class Stop(Exception):
    pass


def run(case, ctx):
    ctx.defer(worlds.clean_registry)
    d = ctx.dir()
    names = case["names"]
    ws, models = [], []
    for arch in case["archives"]:
        w = zips.ZipWorld(d, arch["storage"], arch["name"])
        m = zips.ZipRef()
        if arch["spec"] is not None:
            trees.plant(m, arch["tree"], names)
            w.put_raw(zips.foreign(m, arch["spec"]))
            if not arch["spec"]["dirs"]:
                m = zips.implied(m)
        ws.append(w)
        models.append(m)
    held = []             # [archive, path, handle, content so far]
    reading = []          # [archive, path, handle, rest of the content]
    writes = asked = drops = 0

    def finish():
        for h in held + reading:
            outcome(h[2].close)
    ctx.defer(finish)

    def written(i, p, data):
        models[i].write(p, data)
        # what an open handle of a member written again gives is open
        reading[:] = [h for h in reading if h[:2] != [i, p]]

    def free(i, p):
        return models[i].fits(p) and not any(
            j == i and q != p and (q == p[:len(q)] or p == q[:len(p)]) for j, q, _, _ in held)

    for op in case["ops"]:
        i = op[1] % len(ws)
        w, m = ws[i], models[i]
        what = "%s in %s" % (op, w.name)
        if op[0] == "drop":
            # handles belong to a connection
            for h in [h for h in held if h[0] == i]:
                h[2].close()
                written(i, h[1], h[3])
                held.remove(h)
            w.drop()
            drops += 1
        elif op[0] == "vanish":
            # the archive is removed, and maybe another one put in its place
            if any(h[0] == i for h in held) or w.raw() is None:
                continue
            for h in [h for h in reading if h[0] == i]:
                h[2].close()
                reading.remove(h)
            worlds.URI(w.where).remove()
            models[i] = m = zips.ZipRef()
            worlds.check_tree(w, m, "once the archive is removed")
            if op[2] is not None:
                trees.plant(m, op[2]["tree"], names)
                w.put_raw(zips.foreign(m, op[2]["spec"]))
                if not op[2]["spec"]["dirs"]:
                    models[i] = m = zips.implied(m)
                worlds.check_tree(w, m, "once another archive is in its place")
            ctx.label("removed")
            drops += 1
        elif op[0] in ("write", "hold"):
            _, _, sp, spell, chunks, how = op
            p = hist.concrete(sp, m, names)
            if spell == 4:
                spell = 0
            if not free(i, p):
                continue
            u = w.uri(p, spell)
            parts = [hist.content(c) for c in chunks]
            if op[0] == "hold":
                held.append([i, p, u.open("wb"), b""])
                continue
            done = b""
            if how == 0:
                with u.open("wb") as f:
                    for c in parts:
                        f.write(c)
                        done += c
            elif how == 1:
                f = u.open("w")
                for c in parts:
                    f.write(c)
                    done += c
                f.close()
                f.close()
            elif how == 2:
                try:
                    with u.open("wb") as f:
                        for c in parts[:1]:
                            f.write(c)
                            done += c
                        raise Stop()
                except Stop:
                    pass
            else:
                with u.open("wb") as f:
                    for c in parts:
                        f.write(c)
                        done += c
                    f.close()
            written(i, p, done)
            writes += 1
        elif op[0] == "more":
            mine = [h for h in held if h[0] == i]
            if mine:
                h = mine[op[2] % len(mine)]
                c = hist.content(op[3])
                h[2].write(c)
                h[3] += c
        elif op[0] == "finish":
            mine = [h for h in held if h[0] == i]
            if mine:
                h = mine[op[2] % len(mine)]
                h[2].close()
                written(i, h[1], h[3])
                held.remove(h)
                writes += 1
                ctx.label("held open")
        elif op[0] == "start":
            files = sorted(p for p, v in m.snapshot().items() if v[0] == "f")
            if files:
                p = files[op[2] % len(files)]
                h = w.uri(p).open("rb")
                data = m.read(p)
                same(h.read(op[3]), data[:op[3]], "begin of %s", p)
                reading.append([i, p, h, data[op[3]:]])
        elif op[0] == "rest":
            mine = [h for h in reading if h[0] == i]
            if mine:
                h = mine[op[2] % len(mine)]
                same(h[2].read(), h[3], "rest of %s, open while other things are done", h[1])
                h[2].close()
                reading.remove(h)
                ctx.label("read slowly")
        else:
            query(op, w, m, names, what, ctx)
            asked += 1
        if op[0] in ("write", "drop", "finish") and op[-1] in (0, 2):
            worlds.check_tree(w, m, "after %s", what)
    for w, m in zip(ws, models):
        worlds.check_tree(w, m, "at the end")
        w.drop()
        worlds.check_tree(w, m, "at the end and after a new connection")
    if writes and asked and (drops or writes > 1 or len(ws) > 1):
        ctx.nontrivial()


def query(op, w, m, names, what, ctx):
    p = hist.concrete(op[2], m, names)
    spell = hist.slash(m, p, op[3])
    u = w.uri(p, spell)
    ctx.label(op[0], "there" if m.exists(p) else "missing")
    if op[0] == "ask":
        for q in ("exists", "isfile", "isdir"):
            got = worlds.success(getattr(u, q), "%s of %s" % (q, p), w)
            same(bool(got), getattr(m, q)(p), "%s of %s in %s", q, p, w.name)
    elif op[0] == "list":
        if m.isdir(p):
            same(list(u.listdir()), m.listdir(p), "listdir of %s in %s", p, w.name)
        else:
            kind, val = outcome(u.listdir)
            need(kind == "err", "listdir of %s in %s, no directory, gives %r", p, w.name, val)
            if not m.exists(p):
                need(isinstance(val, FileDoesNotExistError), "listdir of the missing %s in %s raises %r",
                     p, w.name, val)
    elif op[0] == "read":
        if m.isfile(p):
            with u.open("rb") as f:
                same(f.read(), m.read(p), "content of %s in %s", p, w.name)
            same(u.open().read(), m.read(p), "content of %s in %s opened without a mode", p, w.name)
        elif not m.exists(p):
            kind, val = outcome(u.open, "rb")
            need(kind == "err" and isinstance(val, FileDoesNotExistError),
                 "opening the missing %s in %s gives %r", p, w.name, val)
    elif op[0] == "glob":
        if m.isdir(p):
            same([v.path for v in u.glob("*")], [u.path.rstrip("/") + "/" + n for n in m.listdir(p)],
                 "glob of %s in %s", p, w.name)
    elif m.isdir(p):
        topdown = op[4]
        got = [(r.path.rstrip("/"), list(a), list(b)) for r, a, b in u.walk(topdown=topdown)]
        want = [(u.path.rstrip("/") + "".join("/" + n for n in r[len(p):]), a, b)
                for r, a, b in m.walk(p, topdown, True)]
        same(got, want, "walk of %s in %s (topdown=%s)", p, w.name, topdown)


def large_cases(tier):
    i = st.just(0)
    write = st.tuples(st.just("write"), i, large.NEW, hist.SPELL, large.CONTENT.map(lambda c: [c]),
                      st.integers(0, 3)).map(list)
    op = st.one_of(
        *[write] * 2,
        st.tuples(st.just("write"), i, large.FILE, hist.SPELL, large.CONTENT.map(lambda c: [c]),
                  st.integers(0, 3)).map(list),
        st.tuples(st.just("drop"), st.just(0)).map(list),
        st.tuples(st.sampled_from(["ask", "list", "glob"]), i, large.DIR, hist.SPELL).map(list),
        st.tuples(st.sampled_from(["ask", "read"]), i, large.FILE, hist.SPELL).map(list),
        st.tuples(st.just("walk"), i, large.DIR, hist.SPELL, st.booleans()).map(list))
    arch = st.fixed_dictionaries(dict(
        name=zips.archives(), storage=st.sampled_from(zips.STORAGES), spec=zips.SPECS, tree=large.trees()))
    return st.fixed_dictionaries(dict(archives=st.lists(arch, min_size=1, max_size=1),
                                      ops=st.lists(op, min_size=2, max_size=6)))


def cases(tier):
    s = hist.spec(["d", "d", "a", "f"], 2)
    c = hist.contents(False)
    big = hist.contents(True)
    i = st.integers(0, 1)
    k = st.integers(0, 5)
    chunks = st.one_of(st.lists(c, max_size=3), big.map(lambda x: [x]))
    write = st.tuples(st.just("write"), i, s, hist.SPELL, chunks, st.integers(0, 3)).map(list)
    op = st.one_of(
        *[write] * 4,
        st.tuples(st.just("write"), i, hist.spec(["f"], 0), hist.SPELL, chunks, st.integers(0, 3)).map(list),
        st.tuples(st.just("hold"), i, s, hist.SPELL, st.just([]), st.just(0)).map(list),
        st.tuples(st.just("more"), i, k, c).map(list),
        st.tuples(st.just("finish"), i, k).map(list),
        st.tuples(st.just("start"), i, k, st.integers(0, 3)).map(list),
        st.tuples(st.just("rest"), i, k).map(list),
        *[st.tuples(st.just("drop"), st.integers(0, 3)).map(list)] * 2,
        st.tuples(st.just("vanish"), i, st.one_of(st.none(), st.fixed_dictionaries(dict(
            spec=zips.SPECS, tree=trees.trees(2, 3, 0, c))))).map(list),
        *[st.tuples(st.sampled_from(["ask", "list", "read"]), i, s, hist.SPELL).map(list)] * 5,
        st.tuples(st.just("glob"), i, s, hist.SPELL).map(list),
        st.tuples(st.just("walk"), i, s, hist.SPELL, st.booleans()).map(list))
    arch = st.fixed_dictionaries(dict(
        name=zips.archives(), storage=st.sampled_from(zips.STORAGES),
        spec=st.one_of(st.none(), st.none(), zips.SPECS),
        tree=trees.trees(2, 3, 0, c)))
    return st.fixed_dictionaries(dict(
        names=zips.pools(), archives=st.lists(arch, min_size=1, max_size=2,
                                              unique_by=lambda a: a["name"]),
        ops=st.lists(op, min_size=5, max_size=16)))


CHECKS = [
    Check("histories", cases, run, 4000, 80000,
          rule="members are written and asked for, and there are several writes, connections or archives"),
    Check("large", large_cases, large.on(run), 120, 4000,
          rule="members are written and asked for, and there are several writes, connections or archives"),
]
