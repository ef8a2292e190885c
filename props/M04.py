"""M04: the dump of an in-memory file system lists every entry with its full content."""
import hashlib
import io

from hypothesis import strategies as st

from vh import gen, hist, large, trees, worlds
from vh.core import Check, need, same, short

IMAGES = (".png", ".gif", ".PNG", ".Gif")
STEMS = ["a", "b", "a b", "\u00fc", "a.b", "x.tar", "a-1", "z"]


def expected(model, no_binary, target_text):
    out = ["MEMORY DUMP: START\n"]

    def rec(node, path):
        for name in sorted(node.ch):
            n = node.ch[name]
            full = path + "/" + name
            if n.kind == "d":
                out.append("DIR: %s\n" % full)
                rec(n, full)
            elif n.kind == "l":
                out.append("LINK: %s -> %s\n" % (full, target_text(n.target)))
            else:
                if no_binary and name.endswith(IMAGES):
                    text = "Binary: " + hashlib.md5(n.data).hexdigest()
                else:
                    text = n.data.decode("utf-8")
                out.append("--- START %s ---\n%s\n--- END ---\n\n" % (full, text))
    rec(model.root, "memory://")
    out.append("MEMORY DUMP: END\n")
    return "".join(out)


def run(case, ctx):
    ctx.defer(worlds.clean_registry)
    names = case["names"]
    r = hist.Runner(names, [worlds.MemWorld("", **dict(case["extras"]))], ctx)
    w = r.worlds[0]
    r.plant(case["tree"])
    handles = []
    ctx.defer(lambda: [h.close() for _, h, _ in handles])
    dumps = touched = 0

    def attrs():
        return {p: (i.mode, i.mtime, i.size) for p in r.model.paths()
                for i in [w.uri(p).info(followlinks=False)]}

    for op in case["ops"]:
        if op[0] == "do":
            # handles of files that may be gone by then are not used any more
            while handles:
                handles.pop()[1].close()
            r.step(op[1])
        elif op[0] == "dump":
            for no_binary in (False, True) if op[1] == 2 else (bool(op[1]),):
                images = [p for p, v in r.model.snapshot().items()
                          if v[0] == "f" and p[-1].endswith(IMAGES)]
                if not no_binary and any(undecodable(r.model.read(p)) for p in images):
                    continue
                before = attrs()
                at = [h.tell() for _, h, _ in handles]
                out = io.StringIO()
                conn = w.root_uri().get_connection()
                if no_binary:
                    conn.dump(out, no_binary=True)
                else:
                    conn.dump(out)
                got = out.getvalue()
                want = expected(r.model, no_binary, lambda t: str(w.target_uri(t)))
                need(got == want, "dump (no_binary=%s) is\n%s\nexpected\n%s", no_binary,
                     short(got, 800), short(want, 800))
                same(attrs(), before, "modes, times and sizes after the dump")
                same([h.tell() for _, h, _ in handles], at, "positions of the open handles after the dump")
                worlds.check_tree(w, r.model, "after the dump")
                dumps += 1
                if len(r.model.paths()) > 1 and any(v[0] == "f" and v[1]
                                                    for v in r.model.snapshot().values()):
                    touched += 1
                if images and no_binary:
                    ctx.label("images")
        else:
            files = sorted(p for p, v in r.model.snapshot().items() if v[0] == "f")
            if not files:
                continue
            if op[0] == "open":
                p = files[op[1] % len(files)]
                mode = ["rb", "r+b", "a+b", "r"][op[2] % 4]
                if mode == "r" and undecodable(r.model.read(p)):
                    mode = "rb"
                handles.append((p, w.uri(p).open(mode), mode))
            elif handles:
                p, h, mode = handles[op[1] % len(handles)]
                if op[0] == "read":
                    h.read(op[2])
                elif op[0] == "seek":
                    h.seek(0 if mode == "r" else op[2])
                elif op[0] == "write" and mode != "r" and mode != "rb":
                    h.seek(0, 2)
                    h.write(b"+\n")
                    h.flush()
                    r.model.look(p).data += b"+\n"
                elif op[0] == "close":
                    handles.pop(op[1] % len(handles))[1].close()
                ctx.label("handle use")
    if touched:
        ctx.nontrivial()


def undecodable(data):
    try:
        data.decode("utf-8")
    except UnicodeDecodeError:
        return True
    return False


TEXT = st.text(alphabet="ab \n\u00fc\u6f22\U0001f600-%{\x00", max_size=8)


def cases(tier):
    text = st.one_of(TEXT.map(lambda t: t.encode("utf-8").decode("latin-1")),
                     st.sampled_from(["", "x", "\n", "--- END ---\n\n", "DIR: memory:///a\n",
                                      "\xc3\xbc", "a\n\nb", "%s", "%(path)s"]))
    image = st.tuples(st.sampled_from(STEMS), st.sampled_from(IMAGES)).map("".join)
    plain = gen.names(control=False).filter(lambda n: "." not in n and ":" not in n)
    pool = st.tuples(st.lists(st.one_of(plain, plain, st.sampled_from(
        ["a.txt", "a.png.txt", "png", "a-png", "apng", "gif.", "a0", "a!", "A"]), image),
        min_size=2, max_size=4, unique=True))
    binary = st.sampled_from(["\x89PNG\r\n\x1a\n", "\xff", "\x00\xfe"])

    def forpool(t):
        names = t[0]
        # images may have any content
        any_image = all(n.endswith(IMAGES) for n in names)
        c = st.one_of(text, binary) if any_image else text
        s = hist.spec(hist.ANY, 1)
        k = st.integers(0, 5)
        do = st.one_of(
            st.tuples(st.just("write"), s, hist.SPELL, c).map(list),
            st.tuples(st.just("append"), s, hist.SPELL, text).map(list),
            st.tuples(st.just("text"), s, hist.SPELL, st.text(alphabet="ab\n\u00fc", max_size=5),
                      st.booleans()).map(list),
            *[hist.OPS[n](s).map(list) for n in ("mkdir", "symlink", "remove", "move", "copy", "read",
                                                 "readtext")])
        op = st.one_of(
            *[st.tuples(st.just("do"), do).map(list)] * 3,
            *[st.tuples(st.just("dump"), st.integers(0, 2)).map(list)] * 2,
            *[st.tuples(st.sampled_from(["open", "read", "seek", "write", "close"]), k,
                        st.integers(0, 6)).map(list)] * 3)
        return st.fixed_dictionaries(dict(
            names=st.just(names), extras=st.sampled_from([[], [], [["k", "v"]]]),
            tree=trees.trees(2, 4, 1, c, min_size=1),
            ops=st.lists(op, min_size=2, max_size=10).map(lambda o: o + [["dump", 2]])))
    return pool.flatmap(forpool)


CHECKS = [
    Check("dumps", cases, run, 4000, 120000,
          rule="a tree of at least two entries with a file that is not empty is dumped"),
    Check("large", lambda t: st.fixed_dictionaries(dict(
        extras=st.just([]), tree=large.trees(True, False),
        ops=st.tuples(st.sampled_from(["", "x" * 9999, "\n" * 5000]).map(
            lambda c: ["do", ["write", ["d", 0, [1]], 0, c]]), st.just(["dump", 2])).map(list))), large.on(run), 80, 2000,
        rule="a tree of at least two entries with a file that is not empty is dumped"),
]
