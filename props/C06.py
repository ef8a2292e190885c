"""C06: a fault in the middle of an operation reaches the caller, is contained, and destroys nothing."""
import errno
import os

from hypothesis import strategies as st

from vh import hist, multi, reffs, trees, worlds, zips
from vh.core import Check, Violation, need, short
from vh.reffs import Err, Unclear

from abl.vpath.base import fs as vfs

PRIMITIVES = ("open", "listdir", "mkdir", "removefile", "removedir", "copystat", "symlink", "readlink",
              "exists", "isfile", "isdir", "islink", "info", "mtime", "isexec")
QUIET = ("exists", "isfile", "isdir", "islink", "info", "mtime", "isexec")


class Odd(Exception):
    """What a backend for some remote protocol might raise."""


class Interrupt(BaseException):
    """The user gives up."""


def fault_of(kind):
    if kind == "interrupt":
        return Interrupt("injected")
    if kind == "odd":
        return Odd("injected")
    return OSError(getattr(errno, kind), "injected")


class File(object):
    """A file handle whose calls are counted, and of which one may fail."""

    def __init__(self, inj, fh, what):
        self._inj, self._fh, self._what = inj, fh, what
        self._inj.handles.append(self)

    def read(self, *a):
        return self._inj.call("read", self._fh.read, a, {})

    def write(self, *a):
        return self._inj.call("write", self._fh.write, a, {})

    def close(self):
        if self in self._inj.handles:
            self._inj.handles.remove(self)
            # what fails has been closed all the same
            return self._inj.call("close", self._fh.close, (), {}, True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._fh, name)


class Injector(object):
    """Counts the calls of the primitive operations of some backends; one of them fails."""

    def __init__(self, conns):
        self.conns = []
        for c in conns:
            if not any(c is x for x in self.conns):
                self.conns.append(c)
        self.log, self.handles = [], []
        self.at, self.fault, self.after, self.hit = None, None, False, None

    def call(self, name, fn, a, k, late=False):
        n = len(self.log)
        self.log.append(name)
        if n != self.at:
            return fn(*a, **k)
        self.hit = name
        if late or (self.after and name != "open"):
            fn(*a, **k)
        raise self.fault

    def __enter__(self):
        for c in self.conns:
            for name in PRIMITIVES:
                self.wrap(c, name, getattr(c, name))
        return self

    def wrap(self, c, name, fn):
        def run(*a, **k):
            r = self.call(name, fn, a, k)
            return File(self, r, a) if name == "open" else r
        c.__dict__[name] = run

    def __exit__(self, *exc):
        for c in self.conns:
            for name in PRIMITIVES:
                del c.__dict__[name]


class Sub(object):
    """Stands for the context, with a directory of its own."""

    def __init__(self, ctx, name):
        self.ctx, self.d = ctx, ctx.dir() + "/" + name
        os.mkdir(self.d)

    def dir(self):
        return self.d

    def dir2(self):
        return self.ctx.dir2()

    def defer(self, fn):
        self.ctx.defer(fn)

    def label(self, *a):
        self.ctx.label(*a)


def prefix(a, b):
    return b[:len(a)] == a


def entry(model, p):
    """The real path of an entry, not followed if it is a link."""
    return model.find(p, False)[3]


class Plan(object):
    """What an operation is about: how to do it, and the trees before and after it."""

    def __init__(self, m, op):
        self.m = m
        name = self.name = op[0]
        i = self.i = op[1] % len(m.worlds)
        j = self.j = op[3] % len(m.worlds)
        mi, mj = m.models[i], m.models[j]
        self.s = s = hist.concrete(op[2], mi, m.names)
        self.d = d = hist.concrete(op[4], mj, m.names)
        self.recursive = op[5]
        self.follow = op[6]
        if self.recursive == 2:
            self.recursive = mi.isdir(s)
        after = [x.clone() for x in m.models]
        other = after[j] if i != j else None
        self.sreal = self.dest = None
        spelled = hist.slash(mi, s, op[7])
        if not s and spelled == 4:
            spelled = 0
        self.u = lambda w: w[i].uri(s, spelled)
        self.v = lambda w: w[j].uri(d)
        if "zip" in (getattr(m.worlds[k], "kind", "") for k in (i, j)):
            self.archive(m, after)
        if name in ("copy", "move"):
            if i == j and m.worlds[i].unsorted and m.below(name, i, s, d, self.follow):
                raise Unclear()
            if name == "copy":
                after[i].copy(s, d, self.recursive, (), self.follow, other)
                self.what = "copy %s:%s to %s:%s (recursive=%s, followlinks=%s)" % (
                    m.worlds[i].name, s, m.worlds[j].name, d, self.recursive, self.follow)
            else:
                self.sreal = entry(mi, s)
                self.dest = d + s[-1:] if mj.isdir(d) else d
                self.dest = entry(mj, self.dest)
                after[i].move(s, d, other)
                self.what = "move %s:%s to %s:%s" % (m.worlds[i].name, s, m.worlds[j].name, d)
        elif name == "remove":
            if not s:
                raise Unclear()
            self.sreal = entry(mi, s)
            after[i].remove(s, self.recursive)
            self.what = "remove %s:%s (recursive=%s)" % (m.worlds[i].name, s, self.recursive)
        elif name == "makedirs":
            after[j].makedirs(d)
            self.what = "makedirs %s:%s" % (m.worlds[j].name, d)
        elif name == "read":
            mi.read(s)
            self.what = "read %s:%s" % (m.worlds[i].name, s)
        else:
            self.what = "%s %s:%s" % (name, m.worlds[i].name, s)
            if name == "md5" and not mi.isfile(s) or name in ("walk", "glob", "listdir") and not mi.isdir(s):
                raise Err()
        self.before = [x.snapshot() for x in m.models]
        self.after = [x.snapshot() for x in after]

    def archive(self, m, after):
        """Only what archives can do."""
        mi, mj = m.models[self.i], m.models[self.j]
        if self.name not in ("copy", "walk", "glob", "listdir", "md5", "read"):
            raise Unclear()
        if self.name == "copy" and m.worlds[self.j].kind == "zip":
            # single files can be copied into archives, what would be file and directory is left out
            t = self.d + self.s[-1:] if mj.isdir(self.d) else self.d
            if not self.s or not mi.isfile(self.s) or not mj.fits(t) or self.i == self.j:
                raise Unclear()
            self.recursive = False

    def do(self, w):
        u, name = self.u(w), self.name
        if name == "copy":
            u.copy(self.v(w), recursive=self.recursive, followlinks=self.follow)
        elif name == "move":
            u.move(self.v(w))
        elif name == "remove":
            u.remove(recursive=self.recursive)
        elif name == "makedirs":
            self.v(w).makedirs()
        elif name == "walk":
            for x in u.walk(followlinks=False):
                pass
        elif name == "glob":
            list(u.glob("*"))
        elif name == "listdir":
            u.listdir()
        elif name == "read":
            with u.open("rb") as f:
                f.read()
        else:
            u.md5()


def state_of(snap, cls=reffs.RefFS):
    m = cls()
    for p, v in sorted(snap.items()):
        if v[0] == "d":
            m.mkdir(p)
        elif v[0] == "f":
            # not through links
            d = m.root
            for n in p[:-1]:
                d = d.ch[n]
            m.find(p[:-1])
            m.write(p, v[1])
        else:
            m.symlink(v[1], p)
    return m


def diff(got, want, limit=4):
    out = ["/".join(p) + " is %s, was %s" % (short(got.get(p), 60), short(want.get(p), 60))
           for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)]
    return "; ".join(out[:limit])


def judge(plan, got, what):
    """got: the trees after the failed operation."""
    name = plan.name
    for k in range(len(got)):
        if k not in (plan.i, plan.j):
            need(got[k] == plan.before[k], "%s: a tree that has no part in it: %s", what, diff(got[k], plan.before[k]))
    I, J = plan.i, plan.j
    if name in ("walk", "glob", "listdir", "md5", "read"):
        need(got[I] == plan.before[I], "%s changes %s", what, diff(got[I], plan.before[I]))
        return
    if name == "remove":
        only_removed(got[I], plan.before[I], plan.sreal, what)
        return
    if name == "copy":
        if I != J:
            need(got[I] == plan.before[I], "%s changes the source: %s", what, diff(got[I], plan.before[I]))
        between(got[J], plan.before[J], plan.after[J], None, what)
        return
    if name == "makedirs":
        between(got[J], plan.before[J], plan.after[J], None, what)
        return
    # move: the source is removed only when its copy is complete
    if I != J:
        src, src0 = got[I], plan.before[I]
        dst, dst0, dst1 = got[J], plan.before[J], plan.after[J]
    else:
        def part(t, inside):
            return dict((p, v) for p, v in t.items() if prefix(plan.sreal, p) == inside)
        src, src0 = part(got[I], True), part(plan.before[I], True)
        # entries can be moved to a place beside, never below the source
        dst, dst0, dst1 = part(got[I], False), part(plan.before[I], False), part(plan.after[I], False)
    if src == src0:
        between(dst, dst0, dst1, plan.dest, what)
    else:
        need(dst == dst1, "%s has removed some of the source before the copy is complete: %s; copy: %s", what,
             diff(src, src0), diff(dst, dst1))
        only_removed(src, src0, plan.sreal, what)


def only_removed(got, before, top, what):
    for p in sorted(set(got) | set(before)):
        if got.get(p) == before.get(p):
            continue
        need(prefix(top, p), "%s: %s, which is somewhere else, is %s and was %s", what, "/".join(p),
             short(got.get(p), 60), short(before.get(p), 60))
        need(p not in got, "%s: %s is %s and was %s", what, "/".join(p), short(got.get(p), 60),
             short(before.get(p), 60))


def between(got, before, after, dest, what):
    """Every entry is as before or as it is meant to be; one of them may be unfinished."""
    unfinished = []
    for p in sorted(set(got) | set(before) | set(after)):
        g, b, a = got.get(p), before.get(p), after.get(p)
        if g == b or g == a:
            continue
        ok = False
        if a is not None and a[0] == "f" and g is not None and g[0] == "f":
            ok = a[1].startswith(g[1])
        elif g is None and b is not None and a is not None and (a != b or a[0] == "l"):
            # the former entry makes way
            ok = b[0] in ("f", "l")
        elif g is None and p == dest and b == ("d",):
            # an empty directory is replaced by another one
            ok = not any(prefix(p, q) and q != p for q in before)
        need(ok, "%s: %s is %s, was %s, and should become %s", what, "/".join(p), short(g, 60), short(b, 60),
             short(a, 60))
        unfinished.append(p)
    if unfinished == [dest]:
        return
    need(len(unfinished) <= 1, "%s leaves several entries unfinished: %s", what,
         ", ".join("/".join(p) for p in unfinished))


def fresh(case, ctx, name):
    sub = Sub(ctx, name)
    if "zip" not in case["kinds"]:
        m = multi.Multi(case["names"], multi.make(case["kinds"], case, sub), sub)
        m.plant(case["forest"])
        return m
    out = []
    for k in case["kinds"]:
        if k == "zip":
            # faults are injected into the backend of the other tree
            out.append(zips.ZipWorld(sub.dir(), "memory key" if "local" in case["kinds"] else "abs", "a.zip"))
            out[-1].unsorted = False
        else:
            out += multi.make([k], dict(case, membase=""), sub)
        out[-1].kind = k
    m = multi.Multi(case["names"], out, sub)
    for i, w in enumerate(out):
        if w.kind == "zip":
            z = zips.ZipRef()
            trees.plant(z, case["forest"][i], case["names"])
            m.models[i] = z if case["spec"]["dirs"] else zips.implied(z)
            if case["forest"][i] or case["there"]:
                w.put_raw(zips.foreign(z, case["spec"]))
            else:
                m.models[i] = zips.ZipRef()
        else:
            trees.plant(m.models[i], case["forest"][i], case["names"])
            w.build(m.models[i])
    return m


def run(case, ctx):
    # a dry run tells which calls there are
    m = fresh(case, ctx, "dry")
    plan = None
    for op in case["ops"]:
        try:
            plan = Plan(m, op)
            break
        except (Unclear, Err):
            pass
    if plan is None:
        ctx.label("left out")
        return
    conns = [w.root_uri().get_connection() for w in m.worlds]
    with Injector(conns) as inj:
        worlds.success(lambda: plan.do(m.worlds), plan.what, m.worlds[plan.i])
    log = inj.log
    if not log:
        ctx.label("no calls")
        return
    loud = [k for k, n in enumerate(log) if n not in QUIET]
    pool = loud if loud and case["loud"] else list(range(len(log)))
    at = pool[case["at"] % len(pool)]
    worlds.clean_registry()

    m = fresh(case, ctx, "run")
    plan = Plan(m, op)
    conns = [w.root_uri().get_connection() for w in m.worlds]
    inj = Injector(conns)
    inj.at, inj.fault, inj.after = at, fault_of(case["fault"]), case["after"]
    what = "%s with %r %s call %d of %d (%s)" % (plan.what, inj.fault, "after" if case["after"] else "in", at + 1,
                                                 len(log), log[at])
    raised = None
    with inj:
        try:
            plan.do(m.worlds)
        except (Exception, Interrupt) as e:
            raised = e
    need(inj.log[:at + 1] == log[:at + 1], "%s: other calls than without the fault", what)
    need(raised is not None, "%s: the caller is not told", what)
    need(raised is inj.fault, "%s: the caller gets %s: %s", what, type(raised).__name__, raised)
    need(not inj.handles, "%s: files are left open: %s", what, [str(h._what[0]) for h in inj.handles])
    for w, c in zip(m.worlds, conns):
        need(w.root_uri().get_connection() is c, "%s: the backend is another one afterwards", what)
    got = [w.snapshot() for w in m.worlds]
    for w in m.worlds:
        if isinstance(w, zips.ZipWorld):
            # a standard reader can open it, too
            w.members()
    judge(plan, got, what)
    ctx.label(plan.name, "%s in %s" % (log[at], plan.name))
    if loud and log[at] not in QUIET and plan.name not in ("walk", "glob", "listdir"):
        ctx.nontrivial()
    # the same again, from what there is now, without a fault
    try:
        m.models = [state_of(g, type(x)) for g, x in zip(got, m.models)]
        again = Plan(m, op)
    except (Unclear, Err):
        ctx.label("not repeated")
        return
    worlds.success(lambda: again.do(m.worlds), "after %s: %s again" % (what, again.what), m.worlds[plan.i])
    for w, want in zip(m.worlds, again.after):
        worlds.check_tree(w, want, "after %s: %s again" % (what, again.what))
        if isinstance(w, zips.ZipWorld):
            w.check_members(state_of(want, zips.ZipRef), "after %s: %s again" % (what, again.what))
    ctx.label("repeated")


def cases(kinds, links, ops, big=True, same=False):
    w = st.integers(0, 1)
    src = st.tuples(st.sampled_from(["d", "d", "a", "f"] + (["l"] if links else [])), st.integers(0, 11),
                    st.just([])).map(list)
    dst = st.one_of(hist.spec(["n"], 0), hist.spec(["n"], 1), hist.spec(["d"], 1),
                    hist.spec(["d", "d", "a", "f"] + (["l"] if links else []), 2))
    op = st.tuples(st.sampled_from(ops), w, src, w, dst, st.sampled_from([2, 2, 2, 2, 2, True]),
                   st.booleans() if links else st.just(True), hist.SPELL).map(list)
    tree = trees.trees(3, 4, links, hist.contents(big), min_size=2, dirs=3)
    return st.sampled_from(kinds).flatmap(lambda ks: st.fixed_dictionaries(dict(
        kinds=st.just(ks), names=hist.pools(2, 4), forest=st.tuples(*[tree for _ in ks]).map(list),
        ops=st.lists(op, min_size=3, max_size=6), at=st.integers(0, 400), loud=st.sampled_from([True, True, True, False]),
        fault=st.sampled_from(["EIO", "ENOSPC", "ENOENT", "EACCES", "odd", "odd", "interrupt"]), after=st.booleans(),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.just("same") if same else st.sampled_from(hist.MEM_BASES))))


def archives(tier):
    w = st.integers(0, 1)
    src = st.tuples(st.sampled_from(["d", "a", "f", "f"]), st.integers(0, 11), st.just([])).map(list)
    dst = st.one_of(hist.spec(["n"], 0), hist.spec(["n"], 1), hist.spec(["d"], 1), hist.spec(["d", "f", "f"], 1))
    op = st.tuples(st.sampled_from(["copy"] * 8 + ["walk", "glob", "listdir", "md5", "read"]), w, src, w, dst,
                   st.just(2), st.just(True), hist.SPELL).map(list)
    tree = trees.trees(3, 4, 0, hist.contents(), min_size=0, dirs=3)
    return st.sampled_from([["zip", "local"], ["zip", "memory"], ["zip", "plug"], ["local", "zip"], ["memory", "zip"],
                            ["plugs", "zip"]]).flatmap(lambda ks: st.fixed_dictionaries(dict(
        kinds=st.just(ks), names=zips.pools(), forest=st.tuples(*[tree for _ in ks]).map(list),
        spec=zips.SPECS, there=st.booleans(),
        ops=st.lists(op, min_size=3, max_size=6), at=st.integers(0, 400), loud=st.sampled_from([True, True, True, False]),
        fault=st.sampled_from(["EIO", "ENOSPC", "ENOENT", "EACCES", "odd", "odd", "interrupt"]), after=st.booleans(),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.just(""))))


TRANSFER = ["copy", "copy", "copy", "move", "move", "move"]
SINGLE = ["remove", "remove", "remove", "makedirs", "md5", "walk", "glob", "listdir"]
ONE = [[k] for k in ("plug", "plugs", "memory", "local")]

CHECKS = [
    Check("single", lambda t: cases(ONE + [["plugl"], ["memory"], ["local"]], 0, SINGLE), run, 1200, 40000, rule="a call that does something failed"),
    Check("singlelinks", lambda t: cases([["plugl"], ["plugu"], ["memory"], ["local"]], 2, SINGLE, False), run,
          1200, 40000, rule="a call that does something failed"),
    Check("within", lambda t: st.one_of(
        cases([["plug"], ["plugs"]], 0, TRANSFER), cases([["plugl"], ["memory"], ["local"], ["plugu"]], 1, TRANSFER),
        cases([["plugl"], ["memory"], ["plugu"]], 1, TRANSFER)), run,
          2000, 60000, rule="a call that does something failed"),
    Check("between", lambda t: cases(
        [["local", "memory"], ["memory", "local"], ["plugl", "memory"], ["memory", "plugl"], ["local", "plugu"],
         ["plugl", "local"]], 1, TRANSFER, same=True), run, 2400, 80000, rule="a call that does something failed"),
    Check("archives", archives, run, 1600, 40000, rule="a call that does something failed"),
]
