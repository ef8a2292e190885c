"""K01: a locked file is locked exclusively until released."""
import os
import threading
import time

from hypothesis import strategies as st

from vh import worlds
from vh.core import Check, HarnessError, need, outcome, same

from abl.util import LockFileObtainException
from abl.vpath.base import URI

LIMIT = 30


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


class Place(object):
    """One file 'd/f' on some backend with links leading to it: 'ld' to 'd', 'lf' to 'd/f'."""

    def __init__(self, kind, ctx):
        self.kind = kind
        if kind == "local":
            self.root = URI(os.path.join(ctx.dir(), "r"))
            os.mkdir(self.root.path)
        elif kind == "memory":
            self.root = URI("memory:///")
        elif kind == "memory2":
            self.root = URI("memory:///", key="two")
        else:
            self.root = URI("memory:///sub")
            self.root.mkdir()
        self.file = self.root / "d" / "f"
        (self.root / "d").mkdir()
        (self.root / "d").symlink(self.root / "ld")
        self.file.symlink(self.root / "lf")
        self.content = None        # None: does not exist
        self.holder = None         # (lock, handle, cleanup, injected)
        # injected locks belong to the path a file was created with
        self.plain = True

    def aliases(self):
        return [self.file, self.root / "ld" / "f", self.root / "lf",
                URI(str(self.file), **self.file.extras), self.root.join("d", "f"),
                (self.root / "ld").join("f")]

    def alias(self, k, gone=False):
        a = self.aliases()
        if gone:
            # removing through 'lf' removes the link
            a = a[:2] + a[3:]
        if self.content is None:
            self.plain = a[k % len(a)].path == self.file.path
        return a[k % len(a)]

    def look(self, what):
        if self.content is None:
            need(not self.file.exists(), "%s: %s exists", what, self.file)
            return
        need(self.file.isfile(), "%s: %s is no file any more", what, self.file)
        with self.file.open("rb") as f:
            same(f.read(), self.content, "%s: content of %s", what, self.file)
        need(self.root.listdir() == ["d", "ld", "lf"], "%s: the links beside it are gone", what)


def places(case, ctx):
    ctx.defer(worlds.clean_registry)
    return [Place(k, ctx) for k in case["kinds"]]


def leave(lock, how):
    """Leave the context; returns the exception that leaves it."""
    if how == "end":
        got = lock.__exit__(None, None, None)
    else:
        e = Stop("x") if how == "stop" else Hard("x")
        got = lock.__exit__(type(e), e, None)
        need(not got, "the exception of the holder is swallowed")


def attempt(p, lock, what):
    """A non-waiting attempt; the handle, or None if it failed as it must."""
    kind, val = outcome(lock.__enter__)
    if p.holder is not None:
        need(kind == "err", "%s succeeds while the lock is held", what)
        need(isinstance(val, LockFileObtainException), "%s on a held lock raises %r", what, val)
        return None
    need(kind == "ok", "%s on a free lock raises %r", what, val)
    if p.content is None:
        p.content = b""
    return val


class Waiter(object):
    def __init__(self, uri, token, entered):
        self.uri, self.token, self.entered = uri, token, entered
        self.error = None
        self.inside = threading.Event()
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        try:
            with self.uri.lock() as f:
                self.entered.append(self.token)
                self.inside.set()
                f.write(self.token)
                f.flush()
        except BaseException as e:
            self.error = e


def history(case, ctx):
    ps = places(case, ctx)
    try:
        steps(case, ctx, ps)
    finally:
        for p in ps:
            if p.holder:
                lock, f, cleanup, injected = p.holder
                if injected:
                    outcome(p.file._manipulate, unlock=True)
                else:
                    outcome(lock.__exit__, None, None, None)


def steps(case, ctx, ps):
    contended = taken = 0
    kept = {}          # locks that were made before they are used
    for n, op in enumerate(case["ops"]):
        name = op[0]
        p = ps[op[1] % len(ps)]
        what = "%s (operation %d, on %s)" % (op, n, p.kind)
        if name == "try":
            cleanup = op[3]
            u = p.alias(op[2], cleanup)
            if op[4]:
                key = (p.kind, str(u), cleanup)
                lock = kept.setdefault(key, u.lock(fail_on_lock=True, cleanup=cleanup))
                if p.holder and p.holder[0] is lock:
                    continue
            else:
                lock = u.lock(fail_on_lock=True, cleanup=cleanup)
            held = p.holder is not None
            f = attempt(p, lock, what)
            if f is not None:
                p.holder = (lock, f, cleanup, False)
                taken += 1
            contended += held
            ctx.label("contended" if held else "free")
        elif name == "take":
            # a waiting attempt on a free lock does not wait
            if p.holder is None:
                u = p.alias(op[2], op[3])
                lock = u.lock(cleanup=op[3])
                f = lock.__enter__()
                if p.content is None:
                    p.content = b""
                p.holder = (lock, f, op[3], False)
                taken += 1
        elif name == "write":
            if p.holder and not p.holder[3]:
                p.holder[1].write(op[2])
                p.holder[1].flush()
                p.content += op[2].encode("utf-8")
        elif name == "leave":
            if p.holder and not p.holder[3]:
                lock, f, cleanup, _ = p.holder
                p.holder = None
                leave(lock, op[2])
                if cleanup:
                    p.content = None
        elif name == "inject":
            # the lock is taken from outside
            if p.kind != "local" and p.holder is None and p.content is not None and p.plain:
                p.file._manipulate(lock=True)
                p.holder = (None, None, False, True)
        elif name == "uninject":
            if p.holder and p.holder[3]:
                p.file._manipulate(unlock=True)
                p.holder = None
        elif name == "append":
            with p.alias(op[2]).open("ab") as f:
                f.write(op[3].encode("utf-8"))
            p.content = (p.content or b"") + op[3].encode("utf-8")
        elif name == "overwrite":
            with p.alias(op[2]).open("wb") as f:
                f.write(op[3].encode("utf-8"))
            p.content = op[3].encode("utf-8")
        elif name == "copyto":
            src = p.root / "d" / "h"
            with src.open("wb") as f:
                f.write(op[3].encode("utf-8"))
            if p.content is not None:
                src.copy(p.alias(op[2]))
                p.content = op[3].encode("utf-8")
                p.alias(op[2]).set_exec(0o100)
            src.remove()
        elif name == "read":
            if p.content is not None:
                with p.alias(op[2]).open("rb") as f:
                    same(f.read(), p.content, "content read by %s", what)
        elif name == "beside":
            # other files come and go
            o = p.root / "d" / "g"
            with o.lock(fail_on_lock=True, cleanup=bool(op[2] % 2)) as f:
                f.write("x")
            if o.exists():
                o.remove()
            p.alias(op[2]).exists()
        elif name == "wait":
            if p.content is None:
                with p.alias(0).open("wb"):
                    p.content = b""
            if p.holder and (p.holder[2] or p.holder[3]):
                continue
            entered = []
            ws = [Waiter(p.alias(op[2] + i), "<%d.%d>" % (n, i), entered) for i in range(op[3])]
            if p.holder:
                time.sleep(0.004)
                need(not entered, "%s: %s got the lock while it is held", what, entered)
                kind, val = outcome(p.alias(op[2]).lock(fail_on_lock=True).__enter__)
                need(kind == "err" and isinstance(val, LockFileObtainException),
                     "%s: an attempt beside waiting ones gives %r", what, val)
                p.look(what + " while others wait")
                p.holder[1].write("last")
                p.holder[1].flush()
                p.content += b"last"
                need(not entered, "%s: %s got the lock while it is held", what, entered)
                lock = p.holder[0]
                p.holder = None
                leave(lock, op[4])
                contended += 1
                ctx.label("waited")
            for w in ws:
                w.thread.join(LIMIT)
                need(not w.thread.is_alive(), "%s: a waiting one does not get the released lock", what)
                if w.error is not None:
                    need(False, "%s: waiting for the lock raises %r", what, w.error)
            p.content += "".join(entered).encode()
        for q in ps:
            q.look("after " + what)
    for p in ps:
        # everything is released in the end
        if p.holder and not p.holder[3]:
            lock, f, cleanup, _ = p.holder
            p.holder = None
            lock.__exit__(None, None, None)
            if cleanup:
                p.content = None
        if p.holder is None:
            with p.file.lock(fail_on_lock=True) as f:
                f.write("end")
            p.content = (p.content or b"") + b"end"
            p.look("in the end")
    if contended and taken > 1:
        ctx.nontrivial()


KINDS = [["local"], ["memory"], ["memory", "memory2"], ["memory", "memory2"], ["local", "memory"],
         ["memory-sub", "memory2"]]
TEXT = st.sampled_from(["a", "b\n", "\u00fc\u6f22", "", "0123456789" * 30])
HOW = st.sampled_from(["end", "end", "stop", "hard"])


def histories(tier):
    w, k = st.integers(0, 1), st.integers(0, 5)
    op = st.one_of(
        *[st.tuples(st.just("try"), w, k, st.sampled_from([False, False, True]), st.booleans()).map(list)] * 6,
        *[st.tuples(st.just("take"), w, k, st.sampled_from([False, False, True])).map(list)] * 2,
        *[st.tuples(st.just("write"), w, TEXT).map(list)] * 3,
        *[st.tuples(st.just("leave"), w, HOW).map(list)] * 3,
        st.tuples(st.just("inject"), w).map(list),
        st.tuples(st.just("uninject"), w).map(list),
        st.tuples(st.just("append"), w, k, TEXT).map(list),
        st.tuples(st.just("overwrite"), w, k, TEXT).map(list),
        st.tuples(st.just("copyto"), w, k, TEXT).map(list),
        st.tuples(st.just("read"), w, k).map(list),
        st.tuples(st.just("beside"), w, k).map(list),
        st.tuples(st.just("wait"), w, k, st.integers(1, 2), HOW).map(list))
    return st.fixed_dictionaries(dict(kinds=st.sampled_from(KINDS),
                                      ops=st.lists(op, min_size=8, max_size=20)))


# -- free running threads --------------------------------------------------------

def threads(case, ctx):
    p = Place(case["kind"], ctx)
    ctx.defer(worlds.clean_registry)
    with p.file.open("wb") as f:
        f.write(b"start")
    inside, order, bad = [], [], []
    failed = [0]
    go = threading.Event()

    def work(n, plan):
        go.wait()
        for i, (k, waiting, hold, pause, raises) in enumerate(plan):
            token = "<%d.%d>" % (n, i)
            try:
                try:
                    with p.alias(k).lock(fail_on_lock=not waiting) as f:
                        inside.append(token)
                        if len(inside) != 1:
                            bad.append("inside at the same time: %s" % inside)
                        order.append(token)
                        f.write(token)
                        f.flush()
                        time.sleep(hold / 2000.0)
                        if inside != [token]:
                            bad.append("inside at the same time: %s" % inside)
                        inside.remove(token)
                        if raises:
                            raise Stop()
                except Stop:
                    pass
                except LockFileObtainException:
                    if waiting:
                        bad.append("a waiting attempt gives up")
                    failed[0] += 1
            except BaseException as e:
                bad.append("%s raises %r" % (token, e))
            time.sleep(pause / 2000.0)

    ts = [threading.Thread(target=work, args=(n, plan), daemon=True)
          for n, plan in enumerate(case["plans"])]
    for t in ts:
        t.start()
    go.set()
    for t in ts:
        t.join(LIMIT)
    need(not bad, "%s", "; ".join(bad[:3]))
    need(not any(t.is_alive() for t in ts), "a waiting attempt never gets the lock")
    p.content = b"start" + "".join(order).encode()
    p.look("after all threads are done")
    ctx.label("some attempts failed" if failed[0] else "no attempt failed")
    if len(ts) > 1 and len(order) > 2:
        ctx.nontrivial()


def plans(tier):
    one = st.tuples(st.integers(0, 5), st.sampled_from([True, True, False]), st.integers(0, 3),
                    st.integers(0, 3), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["memory", "local", "memory-sub"]),
        plans=st.lists(st.lists(one, min_size=1, max_size=4), min_size=2, max_size=4)))


# -- long waits ------------------------------------------------------------------

SOON = 0.6      # an attempt that does not wait is over by then, at least once in a few


def patience(case, ctx):
    """Waiting attempts wait for as long as it takes, the others do not wait at all."""
    ctx.defer(worlds.clean_registry)
    ps = []
    for kind in case["kinds"]:
        p = Place(kind, ctx)
        with p.file.open("wb") as f:
            f.write(b"start")
        p.content = b"start"
        lock = p.file.lock(fail_on_lock=True)
        p.holder = (lock, lock.__enter__(), False, False)
        ps.append((p, [], []))
    for p, entered, ws in ps:
        for i, k in enumerate(case["waiters"]):
            ws.append(Waiter(p.alias(k), "<%d>" % i, entered))
    end = time.monotonic() + case["hold"]
    waited = False
    while True:
        for p, entered, ws in ps:
            need(not entered, "%s: %s got the lock while it is held", p.kind, entered)
            gone = [w for w in ws if not w.thread.is_alive()]
            need(not gone, "%s: a waiting attempt does not wait: %r", p.kind, gone and gone[0].error)
            took = []
            for k in case["tries"] if not waited else []:
                t = time.monotonic()
                kind, val = outcome(p.alias(k).lock(fail_on_lock=True).__enter__)
                took.append(time.monotonic() - t)
                need(kind == "err" and isinstance(val, LockFileObtainException),
                     "%s: an attempt on a held lock gives %r", p.kind, val)
            if took:
                need(min(took) < SOON, "%s: attempts that must not wait take %s s", p.kind, took)
        waited = True
        if time.monotonic() >= end:
            break
        time.sleep(0.1)
    for p, entered, ws in ps:
        lock = p.holder[0]
        p.holder = None
        leave(lock, case["how"])
        for w in ws:
            w.thread.join(LIMIT)
            need(not w.thread.is_alive(), "%s: a waiting attempt does not get the released lock", p.kind)
            need(w.error is None, "%s: waiting for the lock raises %r", p.kind, w.error)
        p.content += "".join(entered).encode()
        p.look("after the waiting ones had their turn")
    ctx.nontrivial()


def waits(tier):
    hold = st.sampled_from([2.6, 5.6, 10.6] if tier == "quick" else [5.6, 11.5, 31.5, 61.5])
    k = st.integers(0, 5)
    return st.fixed_dictionaries(dict(
        kinds=st.sampled_from([["memory", "memory2", "local"], ["memory-sub", "memory2", "local"]]), hold=hold,
        waiters=st.lists(k, min_size=1, max_size=3), tries=st.lists(k, min_size=4, max_size=6), how=HOW))


CHECKS = [
    Check("histories", histories, history, 4800, 80000,
          rule="a lock is taken at least twice and attempted while it is held"),
    Check("threads", plans, threads, 480, 8000, shrink=False,
          rule="several threads take the lock more than twice together"),
    Check("patience", waits, patience, 16, 64, shrink=False,
          rule="attempts wait for seconds while others are made beside them"),
]
