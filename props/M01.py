"""M01: in-memory file handles behave like those of regular files."""
import hashlib
import os

from hypothesis import strategies as st

from vh import worlds
from vh.core import Check, need, outcome, same, short

from abl.vpath.base import URI

BMODES = ["rb", "wb", "ab", "r+b", "w+b", "a+b"]
TMODES = ["r", "w", "a", "r+", "w+", "a+"]



def grown(s):
    """Long lines are written short in a case."""
    return s.replace("\ue000", "ab" * 35000).replace("\ue001", "\u00fc" * 4100)


def data(s):
    return s.encode("latin-1")


def memuri(ctx, path="/d/f", **kw):
    ctx.defer(worlds.clean_registry)
    u = URI("memory://" + path, **kw)
    u.directory().makedirs()
    return u


def utf8(path):
    try:
        open(path, "rb").read().decode("utf-8")
    except UnicodeError:
        return False
    return True


class Broken(Exception):
    pass


def agree(what, mem, real):
    """Both outcomes are the same value, or both are errors of the operating system."""
    kind, val = mem
    rkind, rval = real
    if rkind == "err" and isinstance(rval, UnicodeError):
        # cut inside a character: what follows depends on the buffering
        raise Broken()
    if rkind == "err":
        need(kind == "err", "%s gives %s, a regular file raises %s", what, short(val), repr(rval))
        need(isinstance(val, OSError), "%s raises %s, a regular file %s", what, repr(val), repr(rval))
    else:
        need(kind == "ok", "%s raises %s, a regular file gives %s", what, repr(val), short(rval))
        need(val == rval and type(val) is type(rval), "%s gives %s, a regular file %s", what,
             short(val), short(rval))


def content(u):
    with u.open("rb") as f:
        return f.read()


def check_content(u, want, what):
    got = content(u)
    same(got, want, "content %s", what)
    same(u.info().size, len(want), "size %s", what)
    if u.md5() != hashlib.md5(want).hexdigest():
        need(False, "md5 %s is not that of the content", what)
    with u.open("r") as f:
        try:
            t = want.decode("utf-8")
        except UnicodeDecodeError:
            return
        same(f.read(), t, "text %s", what)


# -- one handle after the other, against a regular file ------------------------

def single(case, ctx):
    path = os.path.join(ctx.dir(), "f")
    u = memuri(ctx)
    if case["start"] is not None:
        with open(path, "wb") as f:
            f.write(grown(case["start"]).encode("utf-8"))
        with u.open("wb") as f:
            f.write(grown(case["start"]).encode("utf-8"))
    done = set()
    for n, (mode, style, ops) in enumerate(case["sessions"]):
        binary = "b" in mode
        rkind, real = outcome(open, path, mode, **({} if binary else dict(encoding="utf-8", newline="\n")))
        kind, mem = outcome(u.open, mode)
        what = "open(%r), number %d" % (mode, n)
        if rkind == "err":
            agree(what, (kind, mem), (rkind, real))
            ctx.label("cannot open")
            continue
        need(kind == "ok", "%s raises %r", what, mem)
        ctx.label(mode)
        if style:
            need(mem.__enter__() is mem, "the context of a handle gives something else")
        last = None      # in text mode, reading and writing need a seek between them
        for op in ops:
            name = op[0]
            what = "%s on handle %d (%s)" % (op, n, mode)
            if not binary:
                outcome(real.flush)
                if not utf8(path):
                    raise Broken()
            if name in ("readlines", "iterate", "next", "tell") and not real.readable():
                # a failed iteration switches off tell() of a regular text file
                calls = dict(readlines=lambda: list(mem.readlines()), iterate=lambda: list(mem),
                             next=lambda: next(mem), tell=mem.tell)
                if name != "tell":
                    kind, val = outcome(calls[name])
                    need(kind == "err" and isinstance(val, OSError), "%s gives %r", what, val)
                continue
            if not binary and last and name in ("write", "read", "readall", "readline", "readlines", "iterate",
                                                "rest", "truncate") and (name in ("write", "truncate")) != last[0]:
                pos = real.seek(0, op[2] if len(op) > 2 and op[2] in (0, 2) else 0)
                got = mem.seek(0, op[2] if len(op) > 2 and op[2] in (0, 2) else 0)
                same(got, pos, "seek before %s", what)
                last = None
            if name == "write":
                if not op[1] and "a" in mode:
                    # whether nothing is appended at the end or in place is not observable in content
                    continue
                v = grown(op[1]).encode("utf-8") if binary else grown(op[1])
                if binary:
                    # anything with bytes in it can be written
                    v = [bytes, bytearray, memoryview][len(v) % 3](v)
                agree(what, outcome(mem.write, v), outcome(real.write, v))
                outcome(real.flush)
                last = (True,)
            elif name == "read":
                args = [] if op[1] is None else [op[1]]
                agree(what, outcome(mem.read, *args), outcome(real.read, *args))
                last = (False,)
            elif name == "readall":
                agree(what, outcome(mem.read, None), outcome(real.read, None))
                last = (False,)
            elif name == "seekable":
                agree(what, outcome(mem.seekable), outcome(real.seekable))
            elif name == "readline":
                agree(what, outcome(mem.readline), outcome(real.readline))
                last = (False,)
            elif name == "readlines":
                agree(what, outcome(lambda: list(mem.readlines())), outcome(lambda: list(real.readlines())))
                last = (False,)
            elif name == "iterate":
                agree(what, outcome(lambda: list(mem)), outcome(lambda: list(real)))
                last = (False,)
            elif name == "next":
                def one():
                    # next() of a regular text file switches off its tell
                    line = next(real) if binary else real.readline()
                    if not line:
                        raise StopIteration
                    return line
                a, b = outcome(lambda: next(mem)), outcome(one)
                if b[0] == "err" and isinstance(b[1], StopIteration):
                    need(a[0] == "err" and isinstance(a[1], StopIteration),
                         "%s at the end gives %r", what, a[1])
                else:
                    agree(what, a, b)
                last = (False,)
            elif name == "seek":
                size = os.fstat(real.fileno()).st_size
                if binary:
                    real.flush()
                    size = os.fstat(real.fileno()).st_size
                    k, whence = op[1], op[2]
                    if whence == 1:
                        k = max(k - 6, -real.tell())
                    elif whence == 2:
                        k = max(k - 6, -size)
                    agree(what, outcome(mem.seek, k, whence), outcome(real.seek, k, whence))
                else:
                    whence = 2 if op[2] == 2 else 0
                    agree(what, outcome(mem.seek, 0, whence), outcome(real.seek, 0, whence))
                last = None
            elif name == "tell":
                if binary:
                    agree(what, outcome(mem.tell), outcome(real.tell))
                else:
                    # only good for coming back
                    a, b = mem.tell(), real.tell()
                    here = outcome(mem.read, 3), outcome(real.read, 3)
                    agree("read(3) after " + what, *here)
                    mem.seek(a), real.seek(b)
                    agree("read(3) again after " + what, outcome(mem.read, 3), outcome(real.read, 3))
                    mem.seek(a), real.seek(b)
                    last = None
            elif name == "truncate":
                if op[1] is None:
                    agree(what, outcome(mem.truncate), outcome(real.truncate))
                else:
                    k = op[1]
                    if not binary:
                        # in the middle of no character
                        outcome(real.flush)
                        t = open(path, "rb").read().decode("utf-8")
                        k = len(t[:op[1]].encode("utf-8"))
                    agree(what, outcome(mem.truncate, k), outcome(real.truncate, k))
                last = (True,)
            elif name == "flush":
                outcome(real.flush)
                mem.flush()
                check_content(u, open(path, "rb").read(), "after flush of handle %d" % n)
            done.add(name)
            if binary:
                same(mem.tell(), real.tell(), "position after %s", what)
        same(outcome(real.close)[0], "ok", "closing")
        if style:
            mem.__exit__(None, None, None)
        else:
            mem.close()
        check_content(u, open(path, "rb").read(), "after handle %d (%s)" % (n, mode))
    same(u.exists(), os.path.exists(path), "existence in the end")
    if len(done) > 2:
        ctx.nontrivial()


def whole(case, ctx):
    try:
        single(case, ctx)
    except Broken:
        ctx.label("inside a character")


TEXT = st.one_of(st.text(alphabet="ab\n\u00fc\u6f22\U0001f600 \t", max_size=8),
                 st.text(alphabet="ab\n", max_size=12),
                 st.sampled_from(["\ue000", "\ue001", "a\ue000\nb", "\ue001\n\ue001", "\n\ue000", "", "\n", "\n\n", "a\nb", "line 1\nline 2\n", "\u00fc\u00fc\n\u6f22",
                                  "\u2028x\u0085y\x0b\x0cz\x1c\n", "\ufeffbom", "x\x00y"]))
SIZE = st.one_of(st.sampled_from([None, -1, 0, 1, 2, 3, 4096, 8193, 65537, 80000]), st.integers(0, 20))


def ops(binary, seeks=3):
    one = [
        *[st.tuples(st.just("write"), TEXT).map(list)] * 3,
        *[st.tuples(st.just("read"), SIZE).map(list)] * 3,
        st.tuples(st.just("readline"), st.integers(0, 1)).map(list),
        st.tuples(st.sampled_from(["readlines", "iterate", "next", "tell", "flush", "readall", "seekable"])).map(list),
        *[st.tuples(st.just("seek"), st.one_of(st.integers(0, 12), st.integers(0, 12), st.sampled_from([4096, 8193, 70001])), st.integers(0, 2)).map(list)] * seeks,
        st.tuples(st.just("truncate"), st.one_of(st.none(), st.integers(0, 14))).map(list),
    ]
    return st.lists(st.one_of(one), max_size=8)


def single_cases(tier):
    session = st.one_of(st.sampled_from(BMODES), st.sampled_from(TMODES),
                        st.sampled_from(["rt", "wt", "at", "rt+", "br", "rb+", "wb+", "ab+", "bw",
                                         "ba"])).flatmap(
        lambda m: st.tuples(st.just(m), st.booleans(), ops("b" in m)).map(list))
    return st.fixed_dictionaries(dict(start=st.one_of(st.none(), TEXT, TEXT),
                                      sessions=st.lists(session, min_size=1, max_size=4)))


# -- several binary handles at the same time, against unbuffered regular ones ---

def several(case, ctx):
    d = ctx.dir()
    u = memuri(ctx)
    names = ["f", "g", "link"]        # 'link' leads to 'f'
    ux = {n: u.directory() / n for n in names}
    px = {n: os.path.join(d, n) for n in names}
    os.symlink(px["f"], px["link"])
    ux["f"].symlink(ux["link"])
    if case["start"]:
        for n in ("f", "g"):
            open(px[n], "wb").write(data(case["start"]))
            with ux[n].open("wb") as f:
                f.write(data(case["start"]))
    handles = []
    used = set()
    for op in case["ops"]:
        name = op[0]
        if name == "open":
            n, mode = names[op[1]], BMODES[op[2]]
            real = outcome(lambda: open(px[n], mode, buffering=0))
            mem = outcome(lambda: ux[n].open(mode))
            if real[0] == "err":
                agree("open %s with %s" % (n, mode), mem, real)
                continue
            need(mem[0] == "ok", "open %s with %s raises %r", n, mode, mem[1])
            handles.append((mem[1], real[1], "%d: %s with %s" % (len(handles), n, mode)))
            ctx.defer(real[1].close)
            continue
        if name == "remove":
            n = names[op[1]]
            real = outcome(lambda: os.unlink(px[n]))
            mem = outcome(lambda: ux[n].remove())
            need(mem[0] == real[0], "removing %s gives %r, for a regular file %r", n, mem, real)
            continue
        if not handles:
            continue
        k = op[1] % len(handles)
        mem, real, label = handles[k]
        if real is None:
            continue
        what = "%s on handle %s" % (op, label)
        if name == "write":
            v = data(op[2])
            if not v and " ab" in label or not v and " a+b" in label:
                continue
            agree(what, outcome(mem.write, v), outcome(real.write, v))
        elif name == "read":
            agree(what, outcome(mem.read, *op[2:]), outcome(real.read, *op[2:]))
        elif name == "readline":
            agree(what, outcome(mem.readline), outcome(real.readline))
        elif name == "rest":
            agree(what, outcome(lambda: list(mem)), outcome(lambda: list(real)))
        elif name == "seek":
            size = os.fstat(real.fileno()).st_size
            to, whence = op[2], op[3]
            if whence == 1:
                to = max(to - 6, -real.tell())
            elif whence == 2:
                to = max(to - 6, -size)
            agree(what, outcome(mem.seek, to, whence), outcome(real.seek, to, whence))
        elif name == "truncate":
            agree(what, outcome(mem.truncate, *op[2:]), outcome(real.truncate, *op[2:]))
        elif name == "close":
            mem.close()
            real.close()
            handles[k] = (mem, None, label)
        used.add(k)
        for i, (m, r, lab) in enumerate(handles):
            if r is not None:
                same(m.tell(), r.tell(), "position of handle %s after %s", lab, what)
        for n in ("f", "g"):
            same(ux[n].exists(), os.path.exists(px[n]), "existence of %s after %s", n, what)
            if os.path.exists(px[n]):
                got, want = content(ux[n]), open(px[n], "rb").read()
                same(got, want, "content of %s after %s", n, what)
                same(ux[n].info().size, len(want), "size of %s after %s", n, what)
    if len(used) > 1:
        ctx.nontrivial()


def several_cases(tier):
    h = st.integers(0, 3)
    s = st.text(alphabet="ab\n\x00\xff", max_size=6)
    op = st.one_of(
        *[st.tuples(st.just("open"), st.sampled_from([0, 0, 2, 1]), st.integers(0, 5)).map(list)] * 3,
        *[st.tuples(st.just("write"), h, s).map(list)] * 3,
        *[st.tuples(st.just("read"), h, st.integers(-1, 9)).map(list)] * 2,
        st.tuples(st.just("read"), h).map(list),
        st.tuples(st.sampled_from(["readline", "rest", "close"]), h).map(list),
        *[st.tuples(st.just("seek"), h, st.integers(0, 12), st.integers(0, 2)).map(list)] * 2,
        st.tuples(st.just("truncate"), h, st.integers(0, 12)).map(list),
        st.tuples(st.just("truncate"), h).map(list),
        st.tuples(st.just("remove"), st.integers(0, 2)).map(list))
    first = st.tuples(st.just("open"), st.just(0), st.integers(0, 5)).map(list)
    return st.fixed_dictionaries(dict(
        start=s, ops=st.tuples(first, first, st.lists(op, min_size=3, max_size=14)).map(
            lambda t: [t[0], t[1]] + t[2])))


# -- text and binary handles mixed, against a model ------------------------------

class Handle(object):
    def __init__(self, mode, size):
        self.mode = mode
        self.binary = "b" in mode
        self.readable = "r" in mode or "+" in mode
        self.writable = "r" not in mode or "+" in mode
        self.append = "a" in mode
        self.pos = size if self.append else 0


def mixed(case, ctx):
    u = memuri(ctx, "/f")
    text0 = case["start"]
    with u.open("w") as f:
        same(f.write(text0), len(text0), "result of writing %r as text", text0)
    store = bytearray(text0.encode("utf-8"))
    hs = []
    crossed = 0
    for op in case["ops"]:
        name = op[0]
        if name == "open":
            mode = (BMODES + TMODES)[op[1]]
            if "w" in mode:
                del store[:]
            hs.append((u.open(mode), Handle(mode, len(store))))
            continue
        if not hs:
            continue
        h, m = hs[op[1] % len(hs)]
        what = "%s on a handle opened with %r, content %r" % (op, m.mode, bytes(store))
        try:
            rest = bytes(store[m.pos:]).decode("utf-8")
        except UnicodeDecodeError:
            rest = None
        if name in ("read", "readline", "lines") and not m.readable or \
                name in ("write", "truncate") and not m.writable:
            fn = dict(read=lambda: h.read(), readline=lambda: h.readline(), lines=lambda: list(h),
                      write=lambda: h.write(b"x" if m.binary else "x"), truncate=lambda: h.truncate(0))[name]
            kind, val = outcome(fn)
            need(kind == "err" and isinstance(val, OSError), "%s gives %r", what, val)
            ctx.label("not allowed")
        elif name == "write":
            v = op[2].encode("utf-8")
            if m.append:
                m.pos = len(store)
            same(h.write(v if m.binary else op[2]), len(v) if m.binary else len(op[2]), "result of %s", what)
            if len(v) and m.pos > len(store):
                store.extend(b"\0" * (m.pos - len(store)))
            store[m.pos:m.pos + len(v)] = v
            m.pos += len(v)
        elif name in ("read", "readline", "lines"):
            if not m.binary and rest is None:
                ctx.label("inside a character")
                continue
            whole = bytes(store[m.pos:]) if m.binary else rest
            nl = b"\n" if m.binary else "\n"
            if name == "read":
                n = op[2]
                want = whole if n is None or n < 0 else whole[:n]
                got = h.read() if n is None else h.read(n)
            elif name == "readline":
                i = whole.find(nl)
                want = whole if i < 0 else whole[:i + 1]
                got = h.readline()
            else:
                want = [x + nl for x in whole.split(nl)]
                want[-1] = want[-1][:-1]
                if not want[-1]:
                    want.pop()
                got = list(h.readlines()) if op[2] else list(h)
                need(got == want, "%s gives %s, expected %s", what, short(got), short(want))
                want = whole
            if name != "lines":
                need(got == want and type(got) is type(want), "%s gives %s, expected %s", what,
                     short(got), short(want))
            m.pos += len(want if m.binary else want.encode("utf-8"))
        elif name == "seek":
            # to the start of some character
            t = bytes(store).decode("utf-8", "replace")
            to = len(t[:op[2]].encode("utf-8"))
            h.seek(to)
            m.pos = to
        elif name == "truncate":
            if rest is None:
                continue
            to = len(bytes(store[:m.pos])) + len(rest[:op[2]].encode("utf-8"))
            h.truncate(to)
            if to > len(store):
                store.extend(b"\0" * (to - len(store)))
            del store[to:]
        same(h.tell(), m.pos, "position after %s", what)
        same(content(u), bytes(store), "content after %s", what)
        try:
            t = bytes(store).decode("utf-8")
        except UnicodeDecodeError:
            continue
        with u.open("r") as f:
            same(f.read(), t, "text after %s", what)
        if len({x.binary for _, x in hs}) == 2:
            crossed += 1
    if crossed > 1:
        ctx.nontrivial()


def mixed_cases(tier):
    h = st.integers(0, 3)
    op = st.one_of(
        *[st.tuples(st.just("open"), st.integers(0, 11)).map(list)] * 2,
        *[st.tuples(st.just("write"), h, TEXT).map(list)] * 3,
        *[st.tuples(st.just("read"), h, SIZE).map(list)] * 3,
        st.tuples(st.just("readline"), h).map(list),
        st.tuples(st.just("lines"), h, st.integers(0, 1)).map(list),
        st.tuples(st.just("seek"), h, st.integers(0, 8)).map(list),
        st.tuples(st.just("truncate"), h, st.integers(0, 8)).map(list))
    return st.fixed_dictionaries(dict(
        start=TEXT,
        ops=st.tuples(st.tuples(st.just("open"), st.sampled_from([0, 2, 3, 5])).map(list),
                      st.tuples(st.just("open"), st.sampled_from([6, 8, 9, 11])).map(list),
                      st.lists(op, min_size=3, max_size=14)).map(lambda t: [t[0], t[1]] + t[2])))


CHECKS = [
    Check("single", single_cases, whole, 5000, 150000,
          rule="at least three kinds of handle operations are made"),
    Check("several", several_cases, several, 4000, 120000,
          rule="at least two handles are used"),
    Check("mixed", mixed_cases, mixed, 4000, 120000,
          rule="operations are made while text and binary handles are open"),
]
