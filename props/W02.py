"""W02: a temporary file handle yields the content and removes the file."""
import os

from hypothesis import strategies as st

from vh import gen
from vh.core import Check, need, outcome, same

from abl.vpath.base.misc import TempFileHandle


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


STYLES = ["abs", "rel", "up", "dot", "sub", "through"]


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            out[p] = os.readlink(p) if os.path.islink(p) else None
        for n in files:
            p = os.path.join(d, n)
            out[p] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def spell(style, n):
    """(directory of the file below the root, the name given for it) seen from 'work'."""
    return dict(abs=("work", None), rel=("work", n), up=("", "../" + n), dot=("work", "./" + n),
                sub=("work/sub", "sub/" + n),
                # 'link' leads to other/deep: its parent is 'other'
                through=("other", "link/../" + n))[style]


def run(case, ctx):
    root = os.path.realpath(ctx.dir())
    n = case["name"]
    for d in ("work/sub", "other/deep", "moved"):
        os.makedirs(os.path.join(root, d))
    os.symlink(os.path.join(root, "other/deep"), os.path.join(root, "work/link"))
    # files of the same name everywhere
    for d in ("", "work", "work/sub", "other", "other/deep", "moved"):
        with open(os.path.join(root, d, n), "wb") as f:
            f.write(b"decoy " + d.encode())
    d, given = spell(case["style"], n)
    path = os.path.join(root, d, n)
    given = given or path
    # it is a text file: all line ends are read as '\n'
    text = case["text"].replace("\r\n", "\n").replace("\r", "\n")
    with open(path, "wb") as f:
        f.write(case["text"].encode("utf-8"))
    before = tree(root)
    os.chdir(os.path.join(root, "work"))
    h = TempFileHandle(given)
    got = []
    what = "handle of %r in work" % given

    def reads(k):
        for size in case["reads"][k::2]:
            pos = sum(map(len, got))
            part = h.read() if size is None else h.read(size)
            want = text[pos:] if size is None or size < 0 else text[pos:pos + size]
            same(part, want, "%s: read(%s) after %d characters", what, size, pos)
            got.append(part)
            same(tree(root), before, "files while the handle is read")

    err = None
    reads(0)
    if case["move"]:
        os.chdir(os.path.join(root, "moved"))
    exits = case["exit"]
    if exits == "close":
        reads(1)
        h.close()
    elif exits in ("with", "with close"):
        with h as x:
            need(x is h, "the context gives %r", x)
            reads(1)
            if exits == "with close":
                x.close()
                need(not os.path.lexists(path), "%s: the file is still there after close", what)
    else:
        err = dict(stop=Stop, hard=Hard, value=ValueError)[exits]("out")
        try:
            with h:
                reads(1)
                raise err
        except (Stop, Hard, ValueError) as e:
            need(e is err, "another exception comes out: %r", e)
        else:
            need(False, "the exception raised inside the context got lost")
    del before[path]
    same(tree(root), before, "%s: files after it was closed (%s)", what, exits)
    if case["again"]:
        # somebody else makes a file of this name
        with open(path, "wb") as f:
            f.write(b"new")
        before[path] = b"new"
    for k in range(case["more"]):
        outcome(h.close)
        same(tree(root), before, "%s: files after closing once more", what)
    kind, val = outcome(h.read, 1)
    need(kind == "err", "reading the closed handle gives %r", val)
    ctx.label(exits, case["style"])
    if len([g for g in got if g]) > 1 or case["move"] or err:
        ctx.nontrivial()


def run_several(case, ctx):
    """Handles of different files that are open at the same time."""
    root = os.path.realpath(ctx.dir())
    dirs = ["a", "b", "a/c"]
    os.makedirs(os.path.join(root, "a/c"))
    os.mkdir(os.path.join(root, "b"))
    texts = {}
    for i, (d, n, t) in enumerate(case["files"]):
        p = os.path.join(root, dirs[d], n)
        if p not in texts and not os.path.isdir(p):
            texts[p] = t.replace("\r", "\n")
            with open(p, "wb") as f:
                f.write(texts[p].encode("utf-8"))
    paths = sorted(texts)
    if not paths:
        return
    os.chdir(root)
    kept = tree(root)
    opened = {}
    most = 0
    for op, k, n in case["ops"]:
        p = paths[k % len(paths)]
        if op == "chdir":
            os.chdir(os.path.join(root, dirs[k % 3]))
            continue
        if op == "open":
            if p not in opened and p in kept:
                opened[p] = [TempFileHandle(os.path.relpath(p) if n % 2 else p), 0]
                most = max(most, len(opened))
        elif p in opened:
            h, pos = opened[p]
            if op == "read":
                same(h.read(n), texts[p][pos:pos + n], "read(%d) of %s after %d characters", n, p, pos)
                opened[p][1] = min(len(texts[p]), pos + n)
            else:
                if op == "close":
                    h.close()
                else:
                    try:
                        with h:
                            if op == "raise":
                                raise Stop("out")
                    except Stop:
                        pass
                del opened[p], kept[p]
        same(tree(root), kept, "files after %s of %s while %d handles are open", op, p, len(opened))
    for p in sorted(opened):
        opened[p][0].close()
        del kept[p]
        same(tree(root), kept, "files after closing %s in the end", p)
    if most > 1:
        ctx.nontrivial()
    ctx.label("%d at once" % most)


def several_cases(tier):
    k = st.integers(0, 3)
    op = st.tuples(st.sampled_from(["open", "open", "read", "read", "close", "with", "raise", "chdir"]), k,
                   st.integers(0, 9)).map(list)
    return st.fixed_dictionaries(dict(
        files=st.lists(st.tuples(st.integers(0, 2), st.one_of(st.sampled_from(["f", "g"]), gen.names()),
                                 st.text(alphabet="ab\n\u00fc\r", max_size=20)).map(list), min_size=2, max_size=4),
        ops=st.lists(op, min_size=4, max_size=14)))


def texts(tier):
    text = st.one_of(
        st.text(alphabet="ab\n \u00fc\u6f22\U0001f600\t", max_size=30),
        st.text(alphabet="ab\n\r", max_size=30),
        st.text(max_size=20).filter(lambda s: not any(
            0xd800 <= ord(c) < 0xe000 for c in s)),
        st.tuples(st.sampled_from(["x", "ab\n", "\u00fc", "0123456789"]),
                  st.one_of(st.integers(800, 9000), st.integers(800, 9000), st.integers(800, 9000),
                            st.integers(20000, 300000))).map(lambda p: p[0] * p[1]))
    return st.fixed_dictionaries(dict(
        name=gen.names(), text=text, style=st.sampled_from(STYLES),
        reads=st.lists(st.one_of(st.sampled_from([1, 2, 5, -1, None, 0, 4096, 8192]),
                                 st.integers(0, 40)), max_size=6),
        move=st.booleans(), again=st.booleans(), more=st.integers(0, 2),
        exit=st.sampled_from(["close", "with", "with close", "stop", "hard", "value"])))


CHECKS = [
    Check("handles", texts, run, 5000, 120000,
          rule="several reads gave something, the working directory changed, or the context was "
               "left by an exception"),
    Check("several", several_cases, run_several, 2000, 50000, rule="two handles are open at the same time"),
]
