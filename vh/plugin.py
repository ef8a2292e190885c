"""A backend as a third party writes it: the primitive operations only, on a RefFS."""
import errno
import io
import os
from types import SimpleNamespace as Bunch

from vh import reffs, worlds
from vh.core import need

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs
from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform

REG = vfs.CONNECTION_REGISTRY


def os_error(e, path):
    k = next((k for k in sorted(e.kinds, key=str) if isinstance(k, int)), errno.EIO)
    if reffs.MISSING in e.kinds:
        k = errno.ENOENT
    return OSError(k, os.strerror(k), str(path))


class Handle(object):
    """An open file: read, write, seek, tell, close and the context manager, nothing else.

    Reads for a size may be short, as those of a socket are."""

    def __init__(self, fs, node, mode, step):
        self.node, self.mode, self.step = node, mode, step
        self.buf = io.BytesIO(node.data)
        if mode[0] == "a":
            self.buf.seek(0, 2)
        fs.handles.append(self)
        self.fs = fs

    def read(self, n=-1):
        if self.mode in ("wb", "ab"):
            raise io.UnsupportedOperation("not readable")
        if n is None or n < 0:
            return self.buf.read()
        return self.buf.read(min(n, self.step) if self.step else n)

    def write(self, data):
        if self.mode == "rb":
            raise io.UnsupportedOperation("not writable")
        return self.buf.write(data)

    def seek(self, *args):
        return self.buf.seek(*args)

    def tell(self):
        return self.buf.tell()

    def close(self):
        if self in self.fs.handles:
            self.fs.handles.remove(self)
            if self.mode != "rb":
                self.node.data = self.buf.getvalue()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class PluginFS(vfs.FileSystem):
    scheme = "plug"
    links = False
    as_uri = False       # readlink gives a URI, not a text
    step = 0

    def _initialize(self):
        self.ref = reffs.RefFS()
        self.handles = []
        self.strange = []

    def _at(self, path):
        if not isinstance(path, vfs.BaseUri):
            self.strange.append(path)
        elif path.get_connection() is not self:
            self.strange.append(str(path))
        t = self._path(path)
        if not t.startswith("/"):
            self.strange.append(t)
        return tuple(t.lstrip("/").split("/")) if t.strip("/") else ()

    def _do(self, path, fn, *args):
        p = self._at(path)
        try:
            return fn(p, *args)
        except reffs.Err as e:
            raise os_error(e, path) from None

    def open(self, path, options, mimetype):
        if options not in ("rb", "wb", "ab", "r+b", "w+b", "a+b"):
            raise ValueError("mode %r" % (options,))

        def node(p):
            if p and p[-1] == "":
                raise reffs.Err(errno.EISDIR)
            if options[0] == "w":
                return self.ref.write(p, b"")
            if options[0] == "a":
                return self.ref.append(p, b"")
            self.ref.read(p)
            return self.ref.get(p)
        return Handle(self, self._do(path, node), options, self.step)

    def listdir(self, path):
        # in no particular order
        return self._do(path, self.ref.listdir)[::-1]

    def removefile(self, path):
        def rm(p):
            d, name, node, _ = self.ref.find(p, False)
            if node is None:
                raise reffs.Err(errno.ENOENT)
            if node.kind == "d":
                raise reffs.Err(errno.EISDIR)
            del d.ch[name]
        self._do(path, rm)

    def removedir(self, path):
        def rm(p):
            d, name, node, _ = self.ref.find(tuple(x for x in p if x), False)
            if node is None:
                raise reffs.Err(errno.ENOENT)
            if node.kind != "d":
                raise reffs.Err(errno.ENOTDIR)
            if node.ch or d is None:
                raise reffs.Err(errno.ENOTEMPTY)
            del d.ch[name]
        self._do(path, rm)

    def mkdir(self, path):
        self._do(path, self.ref.mkdir)

    def exists(self, path):
        return self._do(path, self.ref.exists)

    def isfile(self, path):
        return self._do(path, self.ref.isfile)

    def isdir(self, path):
        return self._do(path, self.ref.isdir)

    def info(self, path, set_info=None, followlinks=True):
        n = self._do(path, self.ref.get, followlinks)
        if set_info:
            n.mode = set_info["mode"]
            return None
        return Bunch(size=len(n.data or b""), mode=n.mode or 0o644, mtime=n.mtime or 1.0)

    def mtime(self, path):
        return self.info(path).mtime

    def isexec(self, path, mode):
        return self.info(path).mode & mode != 0

    def set_exec(self, path, mode):
        self.info(path, dict(mode=(self.info(path).mode & ~0o111) | mode))

    def copystat(self, path, other):
        s, d = self._do(path, self.ref.get), self._do(other, self.ref.get)
        d.mode, d.mtime = s.mode, s.mtime

    def supports_symlinks(self):
        return self.links


class LinkFS(PluginFS):
    """With links; they hold a text."""

    scheme = "plugl"
    links = True

    def islink(self, path):
        return self._do(path, self.ref.islink)

    def readlink(self, path):
        t = self._do(path, self.ref.readlink)
        text = "/" + "/".join(t[1:]) if t[:1] == ("/",) else "/".join(t)
        if self.as_uri:
            if text.startswith("/"):
                return URI("%s://%s%s" % (path.scheme, path.hostname or "", text))
            return URI(self.scheme + ":///./" + text)
        return text

    def symlink(self, target, link_name):
        text = self._path(target)
        if text.startswith("./"):
            text = text[2:]
        t = ("/",) + tuple(x for x in text.split("/") if x) if text.startswith("/") else tuple(text.split("/"))
        self._do(link_name, lambda p: self.ref.symlink(t, p))


class UriLinkFS(LinkFS):
    """With links; reading one gives a URI."""

    scheme = "plugu"
    as_uri = True


class ShortFS(PluginFS):
    scheme = "plugs"
    step = 7


class OwnUri(vfs.BaseUri):
    pass


for c in (PluginFS, LinkFS, UriLinkFS, ShortFS):
    REG.register(c.scheme, c)
vfs.SCHEME_REGISTRY["plugl"] = OwnUri
vfs.SCHEME_REGISTRY["plugu"] = vfs.RevisionedUri


class PluginWorld(worlds.World):
    """One address of a plugin backend, below a base directory."""

    def __init__(self, scheme, base="", host="h"):
        worlds.World.__init__(self, base)
        self.scheme = scheme
        self.host = host
        self.name = self.short = "%s://%s" % (scheme, host)
        self.unsorted = True
        self.can_link = scheme in ("plugl", "plugu")
        self.fs = self.root_uri().get_connection()
        p = ()
        for n in base.split("/")[1:]:
            p += (n,)
            if not self.fs.ref.isdir(p):
                self.fs.ref.mkdir(p)
        self.at = p

    def text(self, p):
        return "%s://%s%s" % (self.scheme, self.host, self.path(p) or "/")

    def root_uri(self):
        return URI(self.text(()))

    def target_uri(self, target):
        t = self.link_path(target)
        if not t.startswith("/"):
            t = ("/./" if t.startswith("../") else "/") + t
        return URI("%s://%s%s" % (self.scheme, self.host, t))

    def _in(self, t):
        """Target of the backend as a target of the model."""
        if t[:1] != ("/",):
            return t
        if t[1:1 + len(self.at)] == self.at:
            return ("/",) + t[1 + len(self.at):]
        return ("?",) + t

    def snapshot(self):
        need(not self.fs.strange, "%s is asked for %s, not a path of its own", self.name, self.fs.strange)
        need(not self.fs.handles, "files are left open on %s", self.name)
        out = {}
        for p, v in self.fs.ref.snapshot().items():
            if p[:len(self.at)] != self.at:
                if p != self.at[:len(p)]:
                    out[("outside",) + p] = v
            elif p != self.at:
                out[p[len(self.at):]] = ("l", self._in(v[1])) if v[0] == "l" else v
        return out

    def build(self, model):
        top = self.fs.ref.get(self.at)
        top.ch = model.root.clone().ch

        def rec(n):
            for c in n.ch.values():
                if c.kind == "d":
                    rec(c)
                elif c.kind == "l" and c.target[:1] == ("/",):
                    c.target = ("/",) + self.at + c.target[1:]
        rec(top)
