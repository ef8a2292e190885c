import os
import stat
import time

from hypothesis import strategies as st

from abl.vpath.base import URI

from vh import hist, worlds
from vh.core import Check, need, same

X = 0o111


def perm(w, u):
    return stat.S_IMODE(u.info().mode)


def disk_mode(w, p):
    return stat.S_IMODE(os.stat(w.dir + "".join("/" + n for n in p)).st_mode)


def near(got, want, what, *args):
    """The same second; a moment might be given as a number or as a date."""
    t = got.timestamp() if hasattr(got, "timestamp") else got
    need(abs(t - want) <= 1, what + ": %r, on disk %r", *(args + (got, want)))


class Model(object):
    """Expected permission bits and contents of a few entries on one backend."""

    def __init__(self, w, names, ctx):
        self.w, self.ctx = w, ctx
        self.files = [(names[0],), (names[1],), ("dir", names[0])]
        self.dir = ("dir",)
        self.links = {("l0",): self.files[0], ("l2",): self.files[2], ("ll",): self.files[0],
                      ("ld",): self.dir, ("dir", "lk"): self.files[0]}
        w.uri(self.dir).mkdir()
        self.data = {}
        for i, f in enumerate(self.files):
            with w.uri(f).open("wb") as h:
                h.write(b"%d" % i)
            self.data[f] = b"%d" % i
        for l, t in sorted(self.links.items()):
            w.target_uri(("/",) + (("l0",) if l == ("ll",) else t)).symlink(w.uri(l))
        self.entries = self.files + [self.dir]
        self.mode = {p: perm(w, w.uri(p)) for p in self.entries}
        self.own = {}        # modes set on links themselves
        self.mtime = {}
        self.mtimes()

    def stamp(self, p):
        if self.w.name == "local":
            return os.stat(self.w.dir + "".join("/" + n for n in p)).st_mtime_ns
        return self.w.uri(p).mtime()

    def mtimes(self):
        for p in self.entries:
            self.mtime[p] = self.stamp(p)

    def pick(self, i):
        """(path to use, entry it stands for)"""
        every = self.files + [self.dir] + sorted(self.links)
        p = every[i % len(every)]
        return p, self.links.get(p, p)

    def readable(self, e):
        return self.mode[e] & 0o400 or self.w.name != "local"

    def writable(self, e):
        return self.mode[e] & 0o200 or self.w.name != "local"

    def check(self, what, loose=()):
        w = self.w
        for p in self.entries:
            u = w.uri(p)
            same(oct(perm(w, u)), oct(self.mode[p]), "mode of %s on %s after %s", p, w.name, what)
            if w.name == "local":
                same(oct(disk_mode(w, p)), oct(self.mode[p]), "mode on disk of %s after %s", p, what)
                known = os.stat(w.dir + "".join("/" + n for n in p))
                info = u.info()
                for n in ("mtime", "atime", "ctime"):
                    near(getattr(info, n), getattr(known, "st_" + n), "%s of %s after %s", n, p, what)
                near(u.mtime(), known.st_mtime, "mtime() of %s after %s", p, what)
            if p not in loose and p in self.files:
                same(self.stamp(p), self.mtime[p], "mtime of %s on %s after %s", p, w.name, what)
        for l, t in sorted(self.links.items()):
            known = os.lstat(w.dir + "".join("/" + n for n in l)) if w.name == "local" else None
            v = w.uri(l)
            same(oct(perm(w, v)), oct(self.mode[t]), "mode through the link %s on %s after %s", l,
                 w.name, what)
            own = v.info(followlinks=False)
            if known:
                same(oct(own.mode), oct(known.st_mode), "mode of the link %s itself after %s", l, what)
                same(own.size, known.st_size, "size of the link %s itself after %s", l, what)
                near(own.mtime, known.st_mtime, "mtime of the link %s itself after %s", l, what)
            elif l in self.own:
                same(oct(stat.S_IMODE(own.mode)), oct(self.own[l]),
                     "mode of the link %s itself on %s after %s", l, w.name, what)
        for p in self.files:
            if self.readable(p):
                with w.uri(p).open("rb") as f:
                    same(f.read(), self.data[p], "content of %s on %s after %s", p, w.name, what)
        self.mtimes()


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def run(case, ctx):
    d = ctx.dir()
    ctx.defer(worlds.clean_registry)
    ctx.defer(lambda old=os.environ.get("TZ", "UTC"): zone(old))
    zone(case["zone"])
    if case["world"] == "local":
        w = worlds.LocalWorld(d, case["style"])
    else:
        w = worlds.MemWorld(case["membase"])
    m = Model(w, case["names"], ctx)
    kinds = set()
    for op in case["ops"]:
        kinds.add(op[0])
        step(m, w, op, ctx)
        ctx.label(op[0])
    ctx.label(w.name)
    if len(kinds) >= 3:
        ctx.nontrivial()


def step(m, w, op, ctx):
    name, i, spell = op[:3]
    p, e = m.pick(i)
    u = w.uri(p, 0 if spell == 4 else spell)
    loose = []
    if name == "chmod":
        mode = op[3]
        if e == m.dir:
            mode |= 0o700
        u.info(dict(mode=mode))
        m.mode[e] = mode
    elif name == "nofollow":
        # what is no link is changed, a link is changed itself (as far as it has a mode)
        mode = op[3] | (0o700 if p == m.dir else 0)
        if p == e:
            u.info(dict(mode=mode), followlinks=False)
            m.mode[p] = mode
        elif w.name != "local":
            w.uri(p, 0).info(dict(mode=mode), followlinks=False)
            m.own[p] = mode
    elif name == "nothing":
        u.info({})
    elif name == "set_exec":
        mask = op[3] & X
        if e == m.dir:
            mask |= 0o100
        u.set_exec(mask)
        m.mode[e] = (m.mode[e] & ~X) | mask
    elif name == "isexec":
        mask = op[3] & X
        got = u.isexec() if not mask else u.isexec(mask)
        same(bool(got), bool(m.mode[e] & (mask or X)), "isexec(%o) of mode %o on %s", mask or X,
             m.mode[e], w.name)
    elif name == "mtime":
        t = op[3]
        if w.name == "local":
            os.utime(w.dir + "".join("/" + n for n in e), (t, t))
        else:
            if op[4] == 0:
                u._manipulate(mtime=t)
            elif op[4] == 1:
                u.info(dict(mtime=t))
            else:
                bits = 0o640 if e != m.dir else 0o750
                u.info(set_info=dict(mtime=t, mode=bits))
                m.mode[e] = bits
            same(u.mtime(), t, "mtime of %s after setting it on %s", p, w.name)
        m.mtime[e] = m.stamp(e)
    elif name in ("copystat", "copy", "treecopy"):
        q, f = m.pick(op[3])
        v = w.uri(q, 0)
        if e == f or (name == "copy" and m.dir in (e, f)):
            return
        if name == "copy":
            if not m.readable(e) or not m.writable(f):
                return
            u.copy(v)
            m.data[f] = m.data[e]
        elif name == "treecopy":
            tree(m, w)
            return
        else:
            if m.dir in (e, f) and e != m.dir:
                # a file's mode can make the directory unusable
                if not m.mode[e] & 0o700 == 0o700:
                    return
            u.copystat(v)
        m.mode[f] = m.mode[e]
        m.mtime[f] = m.mtime[e]
        same(v.mtime(), u.mtime(), "mtime of %s after %s from %s on %s", q, name, p, w.name)
        same(v.info().mtime, u.info().mtime, "mtime of %s after %s from %s on %s", q, name, p, w.name)
        if f == m.dir:
            loose.append(f)
    elif name == "move":
        away(m, w, u, p, e, w.uri(("away",)), "the same backend")
        d2 = m.ctx.dir2() if w.name == "local" else None
        if d2:
            away(m, w, u, p, e, URI(d2) / "away", "another device")
    elif name in ("rewrite", "append"):
        if e == m.dir or not m.writable(e):
            return
        data = hist.content(op[3])
        before = time.time()
        with u.open("wb" if name == "rewrite" else "ab") as h:
            h.write(data)
        after = time.time()
        m.data[e] = data if name == "rewrite" else m.data[e] + data
        if w.name == "memory" and data:
            need(before <= u.mtime() <= after, "mtime of %s is %s after writing at %s", p,
                 u.mtime(), before)
        loose.append(e)
    m.check("%s %s" % (name, op[1:]), loose)


def away(m, w, u, p, e, v, where):
    """A move takes mode and time along, there and back."""
    if p != e:
        # links have no modes of their own
        return
    if e == m.dir and (where != "the same backend" or w.name != "local"):
        # these directories are made anew
        return
    if where != "the same backend" and not m.readable(e):
        return
    stamp = u.mtime()
    u.move(v)
    need(not u.exists(), "%s is still there after a move on %s", p, w.name)
    same(oct(perm(w, v)), oct(m.mode[e]), "mode of %s moved to %s (%s)", p, where, w.name)
    same(v.mtime(), stamp, "mtime of %s moved to %s (%s)", p, where, w.name)
    v.move(u)


def tree(m, w):
    """A recursive copy within the backend takes the modes and times of the files along."""
    if not m.readable(m.files[2]) or not m.readable(m.files[0]):
        return
    t = w.uri(("copyof", "dir"))
    w.uri(m.dir).copy(t, recursive=True)
    for n, f in ((m.files[2][1], m.files[2]), ("lk", m.files[0])):
        # 'lk' is a link to a file outside, replaced by what it leads to
        v = t / n
        need(not v.islink(), "%s is a link in a copied directory on %s", n, w.name)
        same(oct(perm(w, v)), oct(m.mode[f]), "mode of %s in a copied directory on %s", n, w.name)
        same(v.mtime(), w.uri(f).mtime(), "mtime of %s in a copied directory on %s", n, w.name)
        v.info(dict(mode=0o600))
    w.uri(("copyof",)).remove(recursive=True)
    m.check("recursive copy")


def cases(tier):
    i = st.integers(0, 7)
    mode = st.one_of(st.integers(0, 0o777), st.integers(0, 0o777).map(lambda x: x | 0o600),
                     st.integers(0, 0o777).map(lambda x: x | 0o1600),
                     st.sampled_from([0, 0o777, 0o111, 0o644, 0o755, 0o400, 0o100, 0o001]))
    times = st.one_of(st.integers(0, 2000000000), st.sampled_from([0, 1, 86399, 86400, 1700000000, -1, -5000, -86401, 4294967296, 5000000000, 1234567890.75]))
    sp = hist.SPELL
    op = st.one_of(
        st.tuples(st.just("chmod"), i, sp, mode), st.tuples(st.just("chmod"), i, sp, mode),
        st.tuples(st.just("set_exec"), i, sp, st.sampled_from([0, 1, 8, 64, 0o111, 0o110, 0o011, 0o101])),
        st.tuples(st.just("set_exec"), i, sp, st.sampled_from([0, 1, 8, 64, 0o111, 0o110, 0o011, 0o101])),
        st.tuples(st.just("isexec"), i, sp, st.sampled_from([0, 1, 8, 64, 0o111, 0o110, 0o011, 0o101])),
        st.tuples(st.just("mtime"), i, sp, times, st.integers(0, 2)),
        st.tuples(st.just("nothing"), i, sp),
        st.tuples(st.just("nofollow"), i, sp, mode),
        st.tuples(st.just("copystat"), i, sp, i), st.tuples(st.just("copy"), i, sp, i),
        st.tuples(st.just("copy"), i, sp, i), st.tuples(st.just("treecopy"), i, sp, i),
        st.tuples(st.just("move"), i, sp),
        st.tuples(st.just("rewrite"), i, sp, hist.contents(False)),
        st.tuples(st.just("append"), i, sp, hist.contents(False)))
    return st.fixed_dictionaries(dict(
        world=st.sampled_from(["local", "memory"]),
        # without summer time, so that dates are moments
        zone=st.sampled_from(["UTC", "AAA-5:30", "BBB+9", "CCC-14"]),
        names=hist.pools(2, 2).filter(lambda n: not set(n) & {"l0", "l2", "ll", "ld", "dir", "copyof", "lk", "away"}),
        ops=st.lists(op.map(list), min_size=4, max_size=24 if tier == "thorough" else 14),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES)))


CHECKS = [
    Check("histories", cases, run, 2400, 80000, rule="at least three different kinds of operations"),
]
