import hashlib
import os

from hypothesis import strategies as st

from vh import hist, large, worlds
from vh.core import Check, same


def swapped(w, p, u, data):
    """Other bytes of the same length and with the same time stamp have another checksum."""
    other = data[:-1] + bytes([data[-1] ^ 1])

    def put(d):
        with w.uri(p).open("wb") as f:
            f.write(d)
        if w.name == "local":
            os.utime(w.dir + "".join("/" + n for n in p), (5, 5))
        else:
            w.uri(p)._manipulate(mtime=5)
    for d in (data, other, data):
        put(d)
        same(u.md5(), hashlib.md5(d).hexdigest(), "md5 after rewriting %d bytes on %s", len(d), w.name)


def run(case, ctx):
    r = hist.Runner(case["names"], hist.make_worlds(case, ctx), ctx)
    data = hist.content(case["content"])
    p = (case["names"][0],)
    link = (case["names"][1],)
    r.model.write(p, data)
    r.model.symlink(("/",) + p, link)
    for w in r.worlds:
        w.build(r.model)
    handles = []
    want = hashlib.md5(data).hexdigest()
    try:
        for w in r.worlds:
            for kind, n in case["handles"]:
                if kind == "read":
                    h = w.uri(p).open("rb")
                    h.read(n)
                elif kind == "readline":
                    h = w.uri(p).open("rb")
                    h.readline()
                elif kind == "seek":
                    h = w.uri(p).open("rb")
                    h.seek(n)
                elif kind == "append":
                    h = w.uri(p).open("ab")
                elif kind == "update":
                    h = w.uri(p).open("r+b")
                    h.seek(n)
                elif kind == "closed":
                    with w.uri(p).open("rb") as h:
                        h.read(n)
                else:
                    same(w.uri(p).md5(), want, "md5 of %d bytes on %s", len(data), w.name)
                    continue
                handles.append(h)
            u = w.uri(link if case["link"] else p, case["spell"])
            same(u.md5(), want, "md5 of %d bytes on %s", len(data), w.name)
            same(u.md5(), want, "second md5 of %d bytes on %s", len(data), w.name)
            if case["more"]:
                with w.uri(p).open("ab") as f:
                    f.write(b"+" * case["more"])
                same(u.md5(), hashlib.md5(data + b"+" * case["more"]).hexdigest(),
                     "md5 after appending %d bytes to %d on %s", case["more"], len(data), w.name)
            if case["swap"] and data:
                swapped(w, p, u, data + b"+" * case["more"])
    finally:
        for h in handles:
            h.close()
    r.model.append(p, b"+" * case["more"])
    for w in r.worlds:
        worlds.check_tree(w, r.model, "after md5")
    ctx.label("%s bytes" % (len(data) if len(data) in (0, 4096, 8192) else
                            ">8192" if len(data) > 8192 else "<8192"))
    if len(data) > 1 and (data != data.decode("latin-1").strip().encode("latin-1") or len(data) > 100
                          or case["handles"]):
        ctx.nontrivial()


def cases(tier, sizes=None):
    near = st.tuples(st.sampled_from([4096, 8192, 12288, 16384, 65536, 70000, 100, 1000]),
                     st.integers(-3, 3)).map(sum)
    sizes = st.one_of(near, near, near, st.integers(0, 20000),
                      st.integers(0, 190000 if tier == "thorough" else 30000))
    if sizes is not None:
        return st.fixed_dictionaries(dict(
            large.WHERE, names=hist.pools(2, 3), content=st.tuples(st.integers(0, 999), sizes).map(list),
            handles=st.just([]), link=st.booleans(), spell=st.integers(0, 3), more=st.sampled_from([0, 1, 4096]),
            swap=st.booleans()))
    return st.fixed_dictionaries(dict(
        names=hist.pools(2, 3),
        content=st.tuples(st.sampled_from([0, 1, 1, 2]), hist.contents(False), st.tuples(st.integers(0, 999), sizes).map(list)).map(
            lambda t: t[2] if t[0] else t[1]),
        handles=st.lists(st.tuples(st.sampled_from(["read", "readline", "seek", "append", "update",
                                                    "closed", "md5"]), st.integers(0, 5000)).map(list),
                         max_size=3),
        link=st.booleans(), spell=st.integers(0, 3), more=st.sampled_from([0, 0, 1, 4096]), swap=st.booleans(),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("contents", cases, run, 2800, 80000,
          rule="more than a few bytes, bytes that text handling would change, or other open handles"),
    Check("large", lambda t: cases(t, large.sizes()), run, 100, 3000, rule="every case"),
]
