"""Backends under test, each holding the tree of a RefFS below some base path."""
import errno
import os
import shutil
import stat

from vh.core import Violation, HarnessError, need, short

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs
from abl.vpath.base.exceptions import FileDoesNotExistError, PathError
from vh import reffs


def kind_of(e):
    if isinstance(e, FileDoesNotExistError):
        return reffs.MISSING
    if isinstance(e, shutil.SameFileError):
        return reffs.SAME
    if isinstance(e, OSError):
        return e.errno if e.errno is not None else reffs.ANY_OS
    if isinstance(e, AssertionError):
        return reffs.ASSERT
    return "%s: %s" % (type(e).__name__, e)


def kind_text(k):
    return errno.errorcode.get(k, str(k)) if isinstance(k, int) else str(k)


def acceptable(kinds, got):
    if got in kinds:
        return True
    return reffs.ANY_OS in kinds and (isinstance(got, int) or got in (reffs.ANY_OS, reffs.SAME))


class World(object):
    """spell: 0 join(*names), 1 name by name, 2 text form, 3 copy of the URI, 4 trailing slash."""

    can_link = True
    can_write = True
    unsorted = False     # listdir in no particular order
    host = None

    def __init__(self, base):
        self.base = base       # path of the root without trailing slash

    def path(self, p):
        return self.base + "".join("/" + n for n in p)

    def link_path(self, target):
        if target and target[0] == "/":
            return self.abs_base() + "".join("/" + n for n in target[1:]) or "/"
        return "/".join(target) if target[0] == ".." else "./" + "/".join(target)

    def abs_base(self):
        return self.base

    def text(self, p):
        raise NotImplementedError

    def uri(self, p, spell=0):
        p = tuple(p)
        slash = spell == 4
        if p and p[-1] == "":
            p = p[:-1]
            slash = True
        if spell == 2:
            u = URI(self.text(p))
        elif spell == 1:
            u = self.root_uri()
            for n in p:
                u = u / n
        elif spell == 3:
            u = URI(self.root_uri().join(*p) if p else self.root_uri())
        elif spell == 5 and p:
            u = self.root_uri() / "/".join(p)
        else:
            u = self.root_uri().join(*p) if p else self.root_uri()
        if slash and not u.path.endswith("/"):
            u = u / ""
        return u

    def target_uri(self, target):
        raise NotImplementedError

    def target_of(self, link_text):
        """Model target of the text of a link."""
        base = self.abs_base()
        if link_text.startswith("/"):
            if link_text == base or link_text == base + "/":
                return ("/",)
            if link_text.startswith(base + "/"):
                return ("/",) + tuple(link_text[len(base) + 1:].split("/"))
            return ("?", link_text)
        if link_text.startswith("./"):
            link_text = link_text[2:]
        return tuple(link_text.split("/"))

    def snapshot(self):
        raise NotImplementedError

    def build(self, model):
        """Create the tree of the model, with plain means."""
        raise NotImplementedError

    def drop(self):
        pass


class LocalWorld(World):
    """styles: abs, rel (chdir to the parent), up (chdir to a sibling), file (file:// prefix)."""

    name = "local"

    def __init__(self, directory, style="abs", sub="t"):
        self.dir = os.path.join(directory, sub)
        os.mkdir(self.dir)
        self.style = style
        if style == "rel":
            os.chdir(directory)
            base = "./" + sub
        elif style == "up":
            side = os.path.join(directory, "side")
            if not os.path.isdir(side):
                os.mkdir(side)
            os.chdir(side)
            base = "../" + sub
        elif style == "bare":
            os.chdir(directory)
            base = sub
        else:
            base = self.dir
        World.__init__(self, base)

    def abs_base(self):
        return self.dir

    def text(self, p):
        t = self.path(p)
        return "file://" + t if self.style == "file" else t

    def root_uri(self):
        return URI(self.text(()))

    def target_uri(self, target):
        t = self.link_path(target)
        return URI(t)

    def snapshot(self):
        out = {}

        def rec(d, path):
            for name in os.listdir(d):
                full = d + "/" + name
                p = path + (name,)
                st = os.lstat(full)
                if stat.S_ISLNK(st.st_mode):
                    out[p] = ("l", self.target_of(os.readlink(full)))
                elif stat.S_ISDIR(st.st_mode):
                    out[p] = ("d",)
                    rec(full, p)
                elif stat.S_ISREG(st.st_mode):
                    with open(full, "rb") as f:
                        out[p] = ("f", f.read())
                else:
                    out[p] = ("?", st.st_mode)
        rec(self.dir, ())
        return out

    def build(self, model):
        for p, v in sorted(model.snapshot().items()):
            full = self.dir + "".join("/" + n for n in p)
            if v[0] == "d":
                os.mkdir(full)
            elif v[0] == "f":
                with open(full, "wb") as f:
                    f.write(v[1])
            else:
                os.symlink(self.link_path(v[1]), full)


class MemWorld(World):

    name = "memory"

    def __init__(self, base="", **extras):
        World.__init__(self, base)
        self.extras = extras
        if base:
            self.root_uri().makedirs()

    def text(self, p):
        t = "memory://" + (self.path(p) or "/")
        if self.extras:
            t += "?" + "&".join("%s=%s" % kv for kv in sorted(self.extras.items()))
        return t

    def root_uri(self):
        return URI("memory://" + (self.base or "/"), **self.extras)

    def target_uri(self, target):
        return URI("memory://" + self.link_path(target), **self.extras)

    def snapshot(self):
        out = {}

        def rec(u, path):
            for name in u.listdir():
                v = u / name
                p = path + (name,)
                if v.islink():
                    t = v.readlink()
                    if not isinstance(t, str):
                        need(t.get_connection() is v.get_connection(),
                             "the target %s of the link %s is on another backend", t, v)
                    out[p] = ("l", self.target_of(t if isinstance(t, str) else t.path))
                elif v.isdir():
                    out[p] = ("d",)
                    rec(v, p)
                elif v.isfile():
                    with v.open("rb") as f:
                        out[p] = ("f", f.read())
                else:
                    out[p] = ("?", name)
        rec(self.root_uri(), ())
        return out

    def build(self, model):
        for p, v in sorted(model.snapshot().items()):
            u = self.uri(p)
            if v[0] == "d":
                u.mkdir()
            elif v[0] == "f":
                with u.open("wb") as f:
                    f.write(v[1])
            else:
                self.target_uri(v[1]).symlink(u)


def check_tree(world, model, what, *args):
    got = world.snapshot()
    want = model.snapshot() if isinstance(model, reffs.RefFS) else model
    if got != want:
        diff = []
        for p in sorted(set(got) | set(want)):
            if got.get(p) != want.get(p):
                diff.append("%s is %s, expected %s" % ("/".join(p), short(got.get(p), 80),
                                                       short(want.get(p), 80)))
        raise Violation("%s: tree on %s: %s" % ((what % args) if args else what, world.name,
                                                "; ".join(diff[:6])))


def expect(kinds, fn, what, world):
    """fn must raise an error of one of these kinds."""
    try:
        r = fn()
    except Exception as e:
        k = kind_of(e)
        need(acceptable(kinds, k), "%s on %s raises %s (%s), expected %s", what, world.name,
             kind_text(k), e, "/".join(sorted(map(kind_text, kinds))))
        return
    if reffs.OK in kinds:
        return
    raise Violation("%s on %s succeeds with %s, expected %s" % (
        what, world.name, short(r, 100), "/".join(sorted(map(kind_text, kinds)))))


def success(fn, what, world):
    try:
        return fn()
    except Exception as e:
        raise Violation("%s on %s raises %s: %s" % (what, world.name, type(e).__name__, e)) from e


def clean_registry():
    """Close every backend but the local one; fresh memory file systems for the next case."""
    vfs.CONNECTION_REGISTRY.cleanup(force=True)
