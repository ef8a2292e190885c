"""Archives: their storage, a model, foreign archives and the URIs of their members."""
import io
import os
import zipfile

from hypothesis import strategies as st

from vh import gen, hist, reffs, worlds
from vh.core import Violation, need, same

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs

STORAGES = ["abs", "abs", "rel", "file", "bare", "memory", "memory", "memory key", "memory dir"]


class ZipRef(reffs.RefFS):
    """Members imply the directories above them."""

    def _imply(self, p):
        cur = self.root
        for n in p[:-1]:
            if n not in cur.ch:
                cur.ch[n] = reffs.Node("d")
            cur = cur.ch[n]
            assert cur.kind == "d"

    def find(self, path, follow=True):
        # nothing in the way of a missing path: it can become a member
        if path and not any(n in ("", ".", "..") for n in path):
            cur = self.root
            for n in path[:-1]:
                cur = cur.ch.get(n) if cur.kind == "d" else False
                if not cur:
                    break
            if cur is None:
                return None, path[-1], None, tuple(path)
        return reffs.RefFS.find(self, path, follow)

    def write(self, p, data):
        self._imply(p)
        return reffs.RefFS.write(self, p, data)

    def clone(self):
        r = ZipRef()
        r.root = self.root.clone()
        return r

    def fits(self, p):
        """p can become a member without being a directory or below a file."""
        return bool(p) and not self.isdir(p) and not any(self.isfile(p[:k]) for k in range(1, len(p)))


class ZipWorld(worlds.World):
    """An archive on local or in-memory storage, missing at first."""

    can_link = False

    def __init__(self, directory, storage, archive):
        worlds.World.__init__(self, "")
        self.name = "archive %s (%s)" % (archive, storage)
        if storage == "bare" and ":" in archive:
            storage = "rel"         # no drive letters, no schemes
        self.storage = storage
        self.short = "zip in " + storage.split()[0].replace("memory", "mem")
        if storage.startswith("memory"):
            self.file = None
            extra = "?key=v" if storage == "memory key" else ""
            sub = "/in/side" if storage == "memory dir" else ""
            self.where = "memory://%s/%s%s" % (sub, archive, extra)
            if sub and not URI("memory://" + sub).isdir():
                URI("memory://" + sub).makedirs()
        else:
            self.file = os.path.join(directory, archive)
            if storage in ("rel", "bare"):
                os.chdir(directory)
            self.where = {"abs": self.file, "file": "file://" + self.file, "rel": "./" + archive,
                          "bare": archive}[storage]

    def text(self, p):
        return "zip://((%s))%s" % (self.where, self.path(p) or "/")

    def root_uri(self):
        return URI(self.text(()))

    def raw(self):
        """Bytes of the archive file, None if there is none."""
        if self.file is not None:
            if not os.path.exists(self.file):
                return None
            with open(self.file, "rb") as f:
                return f.read()
        u = URI(self.where)
        if not u.exists():
            return None
        with u.open("rb") as f:
            return f.read()

    def put_raw(self, data):
        if self.file is not None:
            with open(self.file, "wb") as f:
                f.write(data)
        else:
            with URI(self.where).open("wb") as f:
                f.write(data)

    def drop(self):
        """The connection of the archive is given up by the registry's clean-up."""
        conn = self.root_uri().get_connection()
        conn.last_used = 0
        vfs.CONNECTION_REGISTRY.cleanup()
        need(self.root_uri().get_connection() is not conn, "the connection of %s stays", self.name)

    def left_open(self):
        """Descriptors of this process that refer to the archive file."""
        out = []
        if self.file is not None:
            real = os.path.realpath(self.file)
            for fd in os.listdir("/proc/self/fd"):
                try:
                    if os.readlink("/proc/self/fd/" + fd) == real:
                        out.append(real)
                except OSError:
                    pass
        return out

    def snapshot(self):
        out = {}

        def rec(u, path):
            for name in u.listdir():
                v = u / name
                p = path + (name,)
                if v.isdir():
                    out[p] = ("d",)
                    rec(v, p)
                elif v.isfile():
                    with v.open("rb") as f:
                        out[p] = ("f", f.read())
                else:
                    out[p] = ("?", name)
        rec(self.root_uri(), ())
        return out

    def members(self):
        """What a standard reader finds: {path: bytes}, directory entries end with ''."""
        data = self.raw()
        if data is None:
            return {}
        try:
            z = zipfile.ZipFile(io.BytesIO(data))
        except Exception as e:
            raise Violation("%s cannot be opened by a standard reader: %r" % (self.name, e))
        with z:
            try:
                bad = z.testzip()
            except Exception as e:
                raise Violation("%s cannot be tested by a standard reader: %r" % (self.name, e))
            need(bad is None, "%s has a broken member %r", self.name, bad)
            # a later entry of a name replaces the earlier one
            out = {}
            for n in z.namelist():
                p = tuple(n.strip("/").split("/")) + (("",) if n.endswith("/") else ())
                data = z.read(n)
                if p in out and out[p] != data:
                    raise Violation("%s has two members for the path %s, of different content"
                                    % (self.name, "/".join(p)))
                out[p] = data
            return out

    def check_members(self, model, what, *args):
        files = {p: v[1] for p, v in model.snapshot().items() if v[0] == "f"}
        got = {p: d for p, d in self.members().items() if p[-1]}
        what = what % args if args else what
        for p in sorted(set(files) | set(got)):
            same(got.get(p), files.get(p), "%s: member %s of %s", what, "/".join(p), self.name)


def foreign(model, spec):
    """Archive bytes of the model, written by zipfile in the style of another tool.

    spec: dict(dirs: 0 none/1 before their members/2 at the end, form: prefix of names,
    deflate, comment, reverse, twice)."""
    buf = io.BytesIO()
    if spec.get("stub"):
        buf.write(b"#!stub\n")
    pre = spec["form"]
    snap = sorted(model.snapshot().items(), reverse=spec["reverse"])
    files = [("/".join(p), v[1]) for p, v in snap if v[0] == "f"]
    dirs = ["/".join(p) + "/" for p, v in snap if v[0] == "d"]
    with zipfile.ZipFile(buf, "a" if spec.get("stub") else "w",
                         zipfile.ZIP_DEFLATED if spec["deflate"] else zipfile.ZIP_STORED) as z:
        if spec["dirs"] == 1:
            for d in dirs:
                z.writestr(zipfile.ZipInfo(pre + d), b"")
        for n, data in files:
            if spec["twice"]:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    z.writestr(pre + n, b"earlier")
                    z.writestr(pre + n, data)
            else:
                z.writestr(pre + n, data)
        if spec["dirs"] == 2:
            for d in dirs:
                z.writestr(zipfile.ZipInfo(pre + d), b"")
        z.comment = spec["comment"].encode("latin-1")
    return buf.getvalue()


def implied(model):
    """The model with just the directories that its members imply."""
    out = ZipRef()
    for p, v in model.snapshot().items():
        if v[0] == "f":
            out.write(p, v[1])
    return out


SPECS = st.fixed_dictionaries(dict(
    dirs=st.integers(0, 2), form=st.sampled_from(["", "", "/"]), deflate=st.booleans(),
    comment=st.sampled_from(["", "", "made elsewhere"]), reverse=st.booleans(),
    twice=st.sampled_from([False, False, False, True]), stub=st.sampled_from([False, False, True])))


def usable(n):
    return "((" not in n and "))" not in n


def pools(min_size=2, max_size=4):
    return gen.alike(st.lists(st.one_of(gen.names().filter(usable), st.sampled_from(
        ["a", "ab", "a.b", "foo", "foofoo", "a b"])), min_size=min_size, max_size=max_size, unique=True), usable)


def archives():
    return st.one_of(st.sampled_from(["a.zip", "x y.zip", "z", "\u00fc.zip", "a.ZIP", "#1.zip", "a+b.zip",
                                      "(1).zip", "100%.zip", "a:b.zip", "a@b", "a=b&c.zip"]),
                     gen.names().filter(lambda n: usable(n) and not n.startswith("~") and
                                        not n.endswith(")") and not n.startswith("(")))
