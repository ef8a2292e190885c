"""Histories of file operations, run on the model and on backends under test."""
import hashlib
import random

from hypothesis import strategies as st

from abl.vpath.base.fs import BaseUri

from vh import gen, reffs, worlds
from vh.core import Violation, need, same, short
from vh.reffs import Err, Unclear

_BUF = b"".join(hashlib.sha256(b"%d" % i).digest() for i in range(6000))   # 192 000 bytes
_BUF += random.Random(1).randbytes(5 << 20)

SIZES = [0, 1, 2, 10, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 16385, 70000]


def content(c):
    """Bytes of a content spec [offset, size] or of a latin-1 string."""
    if isinstance(c, str):
        return c.encode("latin-1")
    off, size = c
    return _BUF[off:off + size]


def contents(big=True):
    opts = [st.sampled_from(["", "x", "abc", "line1\nline2\n", "\x00", "a\x00\x00", " \n", "\x00\xff\r\n\x80", "\r\n",
                             "\xc3\xbc", "\xef\xbb\xbfx"]),
            st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=8),
            st.tuples(st.integers(0, 200), st.integers(0, 40)).map(list)]
    if big:
        opts.append(st.tuples(st.integers(0, 999), st.sampled_from(SIZES)).map(list))
    return st.one_of(opts)


def pools(min_size=2, max_size=4, **kw):
    """The few names used in one case; the first ones short and alike."""
    return gen.alike(
        st.lists(gen.names(**kw), min_size=min_size, max_size=max_size, unique=True),
        lambda n: not any(c in n for c in kw.get("exclude", "")), kw.get("control", False))


def spec(sels, depth=2):
    """[selector, k, [name indices]]: the k-th existing entry of a kind, then names below it."""
    return st.tuples(st.sampled_from(sels), st.integers(0, 11),
                     st.lists(st.integers(0, 3), max_size=depth)).map(list)


ANY = ["d", "d", "a", "f", "l"]
SPELL = st.sampled_from([0, 0, 1, 2, 3, 4, 5])


def concrete(sp, model, names):
    sel, k, tail = sp
    snap = model.snapshot()
    if sel in ("d", "n"):
        c = [()] + sorted(p for p, v in snap.items() if v[0] == "d")
    elif sel == "a":
        c = sorted(snap)
    else:
        c = sorted(p for p, v in snap.items() if v[0] == sel)
    base = c[k % len(c)] if c else ()
    if sel == "n":
        # something new in a directory
        base += ("new",)
    return base + tuple(names[i % len(names)] for i in tail)


# -- the operations: (model function, backend function) -----------------------------------

def slash(model, p, spell, create=False):
    """A trailing slash is used on directories only."""
    if spell == 4 and p and not ((model.isdir(p) and not model.islink(p)) or create):
        return 0
    return spell


def put(u, mode, data):
    with u.open(mode) as f:
        f.write(data)


def fetch(u, mode="rb"):
    with u.open(mode) as f:
        return f.read()


def patch(u, pos, data):
    with u.open("r+b") as f:
        f.seek(pos)
        f.write(data)


class Runner(object):
    """Runs one history on a model and a list of worlds and compares after each step."""

    def __init__(self, names, wlist, ctx, lazy=False):
        self.names = names
        self.lazy = lazy      # look at the tree only at the end
        self.worlds = wlist
        self.model = reffs.RefFS()
        self.ctx = ctx
        self.done = {}
        self.failed = 0
        self.throughlink = 0

    def plant(self, tree):
        from vh import trees
        trees.plant(self.model, tree, self.names)
        for w in self.worlds:
            w.build(self.model)

    def count(self, name):
        self.done[name] = self.done.get(name, 0) + 1

    def both(self, what, on_model, on_world, compare=None, changes=True):
        """on_model(model) and on_world(world) must agree."""
        trial = self.model.clone() if changes else self.model
        try:
            want = on_model(trial)
        except Unclear:
            self.ctx.label("left out")
            return False
        except Err as e:
            self.failed += 1
            for w in self.worlds:
                worlds.expect(e.kinds, lambda: on_world(w), what, w)
                if not self.lazy:
                    worlds.check_tree(w, self.model, "after the failing %s", what)
            return True
        self.model = trial
        for w in self.worlds:
            got = worlds.success(lambda: on_world(w), what, w)
            if compare is not None:
                compare(w, got, want)
            if changes and not self.lazy:
                worlds.check_tree(w, self.model, "after %s", what)
        return True

    def value(self, what, on_model, on_world):
        def compare(w, got, want):
            same(got, want, "%s on %s", what, w.name)
        return self.both(what, on_model, on_world, compare, changes=False)

    # -- single operations
    def step(self, op):
        name = op[0]
        fn = getattr(self, "op_" + name)
        try:
            if fn(*op[1:]):
                self.count(name)
        except Unclear:
            self.ctx.label("left out")

    def path(self, sp):
        return concrete(sp, self.model, self.names)

    def links_in(self, p):
        m = self.model
        return any(m.islink(p[:i]) for i in range(1, len(p) + 1))

    def note(self, p):
        if self.links_in(p):
            self.throughlink += 1

    def op_mkdir(self, sp, spell):
        p = self.path(sp)
        self.note(p)
        spell = slash(self.model, p, spell, not self.model.islink(p) and self.model.look(p) is None)
        return self.both("mkdir %s" % (p,), lambda m: m.mkdir(p), lambda w: w.uri(p, spell).mkdir())

    def op_makedirs(self, sp, spell):
        p = self.path(sp)
        self.note(p)
        spell = slash(self.model, p, spell, not self.model.islink(p) and self.model.look(p) is None)
        return self.both("makedirs %s" % (p,), lambda m: m.makedirs(p),
                         lambda w: w.uri(p, spell).makedirs())

    def op_write(self, sp, spell, c, mode="wb"):
        p = self.path(sp)
        self.note(p)
        data = content(c)
        return self.both("open(%s, %s) and write" % (p, mode), lambda m: m.write(p, data),
                         lambda w: put(w.uri(p, slash(self.model, p, spell)), mode, data))

    def op_append(self, sp, spell, c, mode="ab"):
        p = self.path(sp)
        self.note(p)
        data = content(c)
        return self.both("append to %s" % (p,), lambda m: m.append(p, data),
                         lambda w: put(w.uri(p, slash(self.model, p, spell)), mode, data))

    def op_update(self, sp, spell, pos, c):
        p = self.path(sp)
        self.note(p)
        data = content(c)
        return self.both("open(%s, r+b), seek to %d and write" % (p, pos),
                         lambda m: m.update(p, pos, data),
                         lambda w: patch(w.uri(p, slash(self.model, p, spell)), pos, data))

    def op_text(self, sp, spell, text, append):
        p = self.path(sp)
        self.note(p)
        mode = "a" if append else "w"
        return self.both(
            "open(%s, %s) and write text" % (p, mode),
            lambda m: (m.append if append else m.write)(p, text.encode("utf-8")),
            lambda w: put(w.uri(p, slash(self.model, p, spell)), mode, text))

    def op_symlink(self, tsp, sp, spell, rel=0):
        p = self.path(sp)
        t = self.path(tsp)
        self.note(p)
        if rel & 2 and t:
            t = self.detour(t)
        target = ("/",) + t
        if rel & 1 and len(p) >= 1:
            # relative to the real directory of the link
            try:
                d = self.model.find(p, False)[3][:-1]
            except Err:
                d = p[:-1]
            common = 0
            while common < len(d) and common < len(t) and d[common] == t[common]:
                common += 1
            target = ("..",) * (len(d) - common) + t[common:]
            if not target:
                target = ("/",) + t
        if spell == 4:
            spell = 0
        return self.both("symlink %s to %s" % (p, target), lambda m: m.symlink(target, p),
                         lambda w: w.target_uri(target).symlink(w.uri(p, spell)))

    def detour(self, t):
        """The path t with a step into a directory or link beside its end and out of it again."""
        m = self.model
        beside = [q[-1] for q in m.snapshot() if q[:-1] == t[:-1] and m.isdir(q)]
        beside.sort(key=lambda n: (not m.islink(t[:-1] + (n,)), n))
        return t[:-1] + (beside[0], "..") + t[-1:] if beside else t

    def op_remove(self, sp, spell, recursive):
        p = self.path(sp)
        if not p:
            return
        self.note(p)
        spell = slash(self.model, p, spell)
        return self.both("remove(%s, recursive=%s)" % (p, recursive),
                         lambda m: m.remove(p, recursive),
                         lambda w: w.uri(p, spell).remove(recursive=recursive))

    def op_copy(self, ssp, dsp, spell, recursive, follow, ignore=()):
        s, d = self.path(ssp), self.path(dsp)
        if not s:
            return
        self.note(s)
        self.note(d)
        ign = [self.names[i % len(self.names)] for i in ignore]
        sps, spd = slash(self.model, s, spell), slash(self.model, d, spell)
        return self.both(
            "copy %s to %s (recursive=%s, followlinks=%s, ignore=%s)" % (s, d, recursive, follow, ign),
            lambda m: m.copy(s, d, recursive, ign, follow),
            lambda w: w.uri(s, sps).copy(w.uri(d, spd), recursive=recursive,
                                         ignore=ign or None, followlinks=follow))

    def op_move(self, ssp, dsp, spell):
        s, d = self.path(ssp), self.path(dsp)
        if not s:
            return
        self.note(s)
        self.note(d)
        sps, spd = slash(self.model, s, spell), slash(self.model, d, spell)
        return self.both("move %s to %s" % (s, d), lambda m: m.move(s, d),
                         lambda w: w.uri(s, sps).move(w.uri(d, spd)))

    def op_query(self, sp, spell):
        p = self.path(sp)
        self.note(p)
        m = self.model
        spell = slash(m, p, spell)
        for w in self.worlds:
            u = w.uri(p, spell)
            for q in ("exists", "isfile", "isdir", "islink"):
                got = worlds.success(getattr(u, q), "%s of %s" % (q, p), w)
                same(bool(got), getattr(m, q)(p), "%s of %s on %s", q, p, w.name)
        return True

    def op_list(self, sp, spell):
        p = self.path(sp)
        self.note(p)
        spell = slash(self.model, p, spell)
        return self.value("listdir of %s" % (p,), lambda m: m.listdir(p),
                          lambda w: (sorted if w.unsorted else list)(w.uri(p, spell).listdir()))

    def op_read(self, sp, spell):
        p = self.path(sp)
        self.note(p)
        spell = slash(self.model, p, spell)
        return (self.value("read of %s" % (p,), lambda m: m.read(p),
                           lambda w: fetch(w.uri(p, spell))) and
                self.model.isfile(p) and
                self.value("size of %s" % (p,), lambda m: m.size(p),
                           lambda w: w.uri(p, spell).info().size))

    def op_peek(self, sp, spell, n, mode):
        """Read a part of a file, or open it only."""
        p = self.path(sp)
        self.note(p)
        spell = slash(self.model, p, spell)

        def peek(w):
            with w.uri(p, spell).open(mode) as f:
                return f.read(n)
        return (self.value("first %d bytes of %s (%s)" % (n, p, mode), lambda m: m.read(p)[:n], peek) and
                self.model.isfile(p) and
                self.value("size of %s" % (p,), lambda m: m.size(p),
                           lambda w: w.uri(p, spell).info().size))

    def op_readtext(self, sp, spell):
        p = self.path(sp)
        if not p or (self.model.isfile(p) and b"\r" in self.model.read(p)):
            return
        try:
            if self.model.isfile(p):
                self.model.read(p).decode("utf-8")
        except UnicodeDecodeError:
            return
        spell = slash(self.model, p, spell)
        return self.value("text of %s" % (p,), lambda m: m.read(p).decode("utf-8"),
                          lambda w: fetch(w.uri(p, spell), "r"))

    def op_readlink(self, sp, spell):
        p = self.path(sp)
        if spell == 4:
            spell = 0

        return self.value("readlink of %s" % (p,), lambda m: m.readlink(p),
                          lambda w: self.target(w, w.uri(p, spell)))

    def target(self, w, u):
        t = u.readlink()
        if w.name in ("local", "memory"):
            need(isinstance(t, BaseUri), "readlink of %s gives no URI but %r", u, t)
            same(t.scheme, u.scheme, "scheme of the target of %s", u)
        return w.target_of(t if isinstance(t, str) else t.path)

    def op_walk(self, sp, spell, topdown, follow):
        p = self.path(sp)
        spell = slash(self.model, p, spell)
        try:
            want = self.model.walk(p, topdown, follow)
        except Unclear:
            return
        except Err:
            return

        def walk(w):
            top = w.uri(p, spell)
            base = top.path.rstrip("/")
            out = []
            for root, dirs, rest in top.walk(topdown=topdown, followlinks=follow):
                rp = root.path.rstrip("/")
                need(rp == base or rp.startswith(base + "/"), "walk of %s on %s reports %s",
                     p, w.name, root.path)
                out.append((p + tuple(x for x in rp[len(base):].split("/") if x),
                            list(dirs), list(rest)))
            return out
        return self.value("walk of %s (topdown=%s, followlinks=%s)" % (p, topdown, follow),
                          lambda m: want, walk)

    def op_md5(self, sp, spell):
        p = self.path(sp)
        return self.value("md5 of %s" % (p,), lambda m: hashlib.md5(m.read(p)).hexdigest(),
                          lambda w: w.uri(p, slash(self.model, p, spell)).md5())

    def finish(self):
        for p, v in sorted(self.model.snapshot().items()):
            if v[0] == "f":
                # also before everything is read
                for w in self.worlds:
                    same(w.uri(p).info().size, len(v[1]), "size of %s on %s", p, w.name)
        for w in self.worlds:
            worlds.check_tree(w, self.model, "at the end")
        for p in [()] + self.model.paths():
            self.op_query(["d", 0, []], 0) if not p else None
        for p, v in sorted(self.model.snapshot().items()):
            if v[0] == "l":
                self.value("readlink of %s" % (p,), lambda m: m.readlink(p), lambda w: self.target(w, w.uri(p)))
            for q in ("exists", "isfile", "isdir", "islink"):
                try:
                    want = getattr(self.model, q)(p)
                except Unclear:
                    continue
                for w in self.worlds:
                    got = worlds.success(getattr(w.uri(p, 2), q), "%s of %s" % (q, p), w)
                    same(bool(got), want, "%s of %s on %s", q, p, w.name)


LOCAL_STYLES = ["abs", "abs", "rel", "up", "file", "bare"]
MEM_BASES = ["", "", "/base", "/base/x y", "/a"]


def make_worlds(case, ctx, which=("local", "memory")):
    out = []
    d = ctx.dir()
    ctx.defer(worlds.clean_registry)
    if "local" in which:
        out.append(worlds.LocalWorld(d, case["style"]))
    if "memory" in which:
        base = case["membase"]
        if base == "same":
            base = d + "/t"
        out.append(worlds.MemWorld(base))
    for k in which:
        if k.startswith("plug"):
            from vh import plugin
            out.append(plugin.PluginWorld(k, case["membase"]))
    return out


OPS = {
    "mkdir": lambda s: st.tuples(st.just("mkdir"), s, SPELL),
    "makedirs": lambda s: st.tuples(st.just("makedirs"), spec(["d", "a"], 3), SPELL),
    "write": lambda s: st.tuples(st.just("write"), s, SPELL, contents(),
                                 st.sampled_from(["wb", "wb", "w+b"])),
    "append": lambda s: st.tuples(st.just("append"), s, SPELL, contents(),
                                  st.sampled_from(["ab", "ab", "a+b"])),
    "update": lambda s: st.tuples(st.just("update"), spec(["f", "f", "a", "d"], 1), SPELL,
                                  st.integers(0, 20), contents(False)),
    "text": lambda s: st.tuples(st.just("text"), s, SPELL,
                                st.text(alphabet="ab\n\u00fc\u6f22\U0001f600", max_size=6), st.booleans()),
    "symlink": lambda s: st.tuples(st.just("symlink"), spec(["a", "d", "f", "l", "a"], 1), s, SPELL),
    "rellink": lambda s: st.tuples(st.just("symlink"), spec(["a", "d", "f", "l", "a"], 1), s, SPELL,
                                   st.integers(0, 3)),
    "remove": lambda s: st.tuples(st.just("remove"), spec(ANY, 1), SPELL, st.booleans()),
    "copy": lambda s: st.tuples(st.just("copy"), spec(["a", "d", "f", "l"], 1), s, SPELL,
                                st.booleans(), st.booleans(),
                                st.lists(st.integers(0, 3), max_size=1)),
    "move": lambda s: st.tuples(st.just("move"), spec(["a", "d", "f", "l"], 1), s, SPELL),
    "query": lambda s: st.tuples(st.just("query"), spec(ANY, 2), SPELL),
    "list": lambda s: st.tuples(st.just("list"), spec(ANY, 1), SPELL),
    "read": lambda s: st.tuples(st.just("read"), spec(["f", "f", "a", "l", "d"], 1), SPELL),
    "peek": lambda s: st.tuples(st.just("peek"), spec(["f", "f", "f", "a"], 0), SPELL, st.integers(0, 5),
                                st.sampled_from(["rb", "rb", "r+b"])),
    "readtext": lambda s: st.tuples(st.just("readtext"), spec(["f", "a"], 0), SPELL),
    "readlink": lambda s: st.tuples(st.just("readlink"), spec(["l", "l", "a"], 1), SPELL),
    "walk": lambda s: st.tuples(st.just("walk"), spec(["d", "l"], 0), SPELL, st.booleans(),
                                st.booleans()),
    "md5": lambda s: st.tuples(st.just("md5"), spec(["f", "f", "a"], 1), SPELL),
}


def histories(weights, sels=ANY, depth=2, max_size=16, min_size=4, links=0, **poolkw):
    s = spec(sels, depth)
    ops = st.one_of([OPS[k](s).map(list) for k, n in weights for _ in range(n)])
    from vh import trees
    return st.fixed_dictionaries(dict(
        names=pools(**poolkw),
        tree=trees.trees(2, 3, links, contents(False)),
        ops=st.lists(ops, min_size=min_size, max_size=max_size),
        lazy=st.sampled_from([False, False, True]),
        style=st.sampled_from(LOCAL_STYLES),
        membase=st.sampled_from(MEM_BASES)))


def run_history(case, ctx, which=("local", "memory")):
    r = Runner(case["names"], make_worlds(case, ctx, which), ctx, case.get("lazy", False))
    # links may lead to what is above the tree
    r.model.open = True
    r.plant(case["tree"])
    for op in case["ops"]:
        r.step(op)
    r.finish()
    for k in r.done:
        ctx.label(k)
    return r
