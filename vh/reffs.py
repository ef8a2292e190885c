"""Reference model: a POSIX file tree in memory, independent of the code under test.

Paths are tuples of names below the root of the model; a trailing '' stands for
a trailing slash.  Link targets are ('/', name, ...) for absolute ones (from the
root of the model) and (name or '..', ...) for relative ones.
"""
import errno

MAXLINKS = 40


class Err(Exception):
    """An expected failure; kinds is the set of acceptable kinds of errors."""

    def __init__(self, *kinds):
        Exception.__init__(self, kinds)
        self.kinds = frozenset(kinds)


class Unclear(Exception):
    """The operation has no specified outcome in this state: it is left out."""


class Node(object):
    __slots__ = ("kind", "ch", "data", "target", "mode", "mtime")

    def __init__(self, kind, data=b"", target=()):
        self.kind = kind
        self.ch = {} if kind == "d" else None
        self.data = data
        self.target = target
        self.mode = None
        self.mtime = None

    def clone(self):
        n = Node(self.kind, self.data, self.target)
        n.mode, n.mtime = self.mode, self.mtime
        if self.ch is not None:
            n.ch = {k: v.clone() for k, v in self.ch.items()}
        return n


ANY_OS = "os"       # any OSError
MISSING = "missing"     # FileDoesNotExistError
OK = "ok"               # success without any change
SAME = "same"           # shutil.SameFileError
ASSERT = "assert"       # AssertionError


class RefFS(object):

    open = False        # there is something above the root

    def __init__(self):
        self.root = Node("d")

    def clone(self):
        r = RefFS()
        r.open = self.open
        r.root = self.root.clone()
        return r

    # -- resolution --------------------------------------------------------

    def find(self, path, follow=True):
        """(directory node, name, node or None, real path); raises Err."""
        todo = list(path)
        links = 0
        stack = [("", self.root)]     # real position
        if not todo:
            return None, "", self.root, ()
        while True:
            name = todo.pop(0)
            cur = stack[-1][1]
            if cur.kind != "d":
                raise Err(errno.ENOTDIR)
            if name == "" or name == ".":
                if not todo:
                    return (stack[-2][1] if len(stack) > 1 else None, stack[-1][0], cur,
                            tuple(n for n, _ in stack[1:]))
                continue
            if name == "..":
                if len(stack) > 1:
                    stack.pop()
                elif self.open:
                    raise Unclear()
                if not todo:
                    return (stack[-2][1] if len(stack) > 1 else None, stack[-1][0], stack[-1][1],
                            tuple(n for n, _ in stack[1:]))
                continue
            node = cur.ch.get(name)
            if node is None:
                if any(todo):
                    raise Err(errno.ENOENT)
                return cur, name, None, tuple(n for n, _ in stack[1:]) + (name,)
            if node.kind == "l" and (todo or follow):
                links += 1
                if links > MAXLINKS:
                    raise Err(errno.ELOOP)
                t = node.target
                if t and t[0] == "/":
                    stack = stack[:1]
                    t = t[1:]
                todo = list(t) + todo
                if not todo:
                    return None, "", self.root, ()
                continue
            if not todo:
                return cur, name, node, tuple(n for n, _ in stack[1:]) + (name,)
            stack.append((name, node))

    def get(self, path, follow=True):
        node = self.find(path, follow)[2]
        if node is None:
            raise Err(errno.ENOENT)
        return node

    def look(self, path, follow=True):
        """The node, or None if there is none for whatever reason."""
        try:
            return self.find(path, follow)[2]
        except Err:
            return None

    def real(self, path, follow=True):
        return self.find(path, follow)[3]

    # -- queries -----------------------------------------------------------

    def exists(self, p):
        return self.look(p) is not None

    def isfile(self, p):
        n = self.look(p)
        return n is not None and n.kind == "f"

    def isdir(self, p):
        n = self.look(p)
        return n is not None and n.kind == "d"

    def islink(self, p):
        n = self.look(p, False)
        return n is not None and n.kind == "l"

    def readlink(self, p):
        n = self.get(p, False)
        if n.kind != "l":
            raise Err(errno.EINVAL)
        return n.target

    def listdir(self, p):
        n = self.get(p)
        if n.kind != "d":
            raise Err(errno.ENOTDIR)
        return sorted(n.ch)

    def read(self, p):
        n = self.get(p)
        if n.kind == "d":
            raise Err(errno.EISDIR)
        return n.data

    def size(self, p):
        return len(self.read(p))

    def walk(self, top, topdown=True, follow=True, _n=None, _above=()):
        """[(path, dirs, others)] as os.walk reports it, links to directories entered if follow."""
        _n = _n if _n is not None else [0]
        _n[0] += 1
        if _n[0] > 400:
            raise Unclear()
        here = self.get(top)
        if any(here is a for a in _above):
            # a cycle: the walk need not come to an end
            raise Unclear()
        dirs, rest = [], []
        for name in self.listdir(top):
            (dirs if self.isdir(top + (name,)) else rest).append(name)
        out = []
        if topdown:
            out.append((top, dirs, rest))
        for name in dirs:
            if follow or not self.islink(top + (name,)):
                out += self.walk(top + (name,), topdown, follow, _n, _above + (here,))
        if not topdown:
            out.append((top, dirs, rest))
        return out

    # -- changes -----------------------------------------------------------

    def mkdir(self, p):
        d, name, node, _ = self.find(tuple(x for x in p if x), False)
        if node is not None:
            raise Err(errno.EEXIST)
        d.ch[name] = Node("d")

    def makedirs(self, p):
        p = tuple(x for x in p if x)
        if self.isdir(p):
            return
        todo = []
        q = p
        while not self.isdir(q):
            todo.append(q)
            q = q[:-1]
        for q in reversed(todo):
            try:
                self.mkdir(q)
            except Err:
                raise Err(ANY_OS)

    def _target(self, p):
        """Directory, name and node of the file to be written."""
        d, name, node, _ = self.find(p)
        if node is not None and node.kind == "d":
            raise Err(errno.EISDIR)
        return d, name, node

    def write(self, p, data):
        d, name, node = self._target(p)
        if node is None:
            node = d.ch[name] = Node("f")
        node.data = data
        node.mtime = None
        return node

    def append(self, p, data):
        d, name, node = self._target(p)
        if node is None:
            node = d.ch[name] = Node("f")
        node.data += data
        node.mtime = None
        return node

    def update(self, p, pos, data):
        """open 'r+b', seek, write."""
        n = self.get(p)
        if n.kind == "d":
            raise Err(errno.EISDIR)
        cur = n.data
        if data:
            if pos > len(cur):
                cur += b"\0" * (pos - len(cur))
            n.data = cur[:pos] + data + cur[pos + len(data):]

    def symlink(self, target, p):
        d, name, node, _ = self.find(p, False)
        if node is not None:
            raise Err(errno.EEXIST)
        d.ch[name] = Node("l", target=tuple(target))

    def remove(self, p, recursive=False):
        q = tuple(x for x in p if x)
        if not self.islink(p) and not self.exists(p):
            raise Err(MISSING)
        d, name, node, _ = self.find(q, False)
        if node.kind == "d":
            if d is None:
                raise Unclear()
            if node.ch and not recursive:
                raise Err(errno.ENOTEMPTY, errno.EEXIST)
        elif q != p:
            raise Unclear()
        del d.ch[name]
        if self.look(q[:-1]) is not d:
            # the way to it went through a link in it
            d.ch[name] = node
            raise Unclear()

    # -- copy and move -----------------------------------------------------

    def _within(self, a, b):
        return b[:len(a)] == a

    def _touched(self, src, follow):
        """Real paths of everything a recursive copy reads; Unclear on cycles and broken links."""
        out = []
        for root, dirs, rest in self.walk(src, True, follow):
            out.append(self.real(root))
            for n in rest:
                p = root + (n,)
                if self.islink(p) and not follow:
                    continue
                if not self.exists(p):
                    raise Unclear()
                out.append(self.real(p))
        return out

    def _copylink(self, src, dst, other):
        t = self.readlink(src)
        if other is self and self.isfile(src) and self.isfile(dst) and not self.islink(dst):
            if self.real(src) == self.real(dst):
                raise Err(SAME)
        if other.isdir(dst) and not other.islink(dst):
            raise Err(ANY_OS)
        if other.look(dst, False) is self.look(src, False):
            raise Err(SAME, OK)
        if other.islink(dst) or other.isfile(dst):
            d, name, _, _ = other.find(dst, False)
            del d.ch[name]
            if other.look(dst[:-1]) is not d:
                # the target is reached through the link it replaces
                raise Unclear()
        other.symlink(t, dst)

    def _copyfile(self, src, dst, other):
        data = self.read(src)
        try:
            d, name, node, real = other.find(dst)
        except Err as e:
            # below the source itself, say
            raise Err(SAME, *e.kinds)
        s = self.get(src)
        if node is s:
            raise Err(SAME)
        n = other.write(dst, data)
        if other is self:
            n.mode, n.mtime = s.mode, s.mtime

    def copy(self, src, dst, recursive=False, ignore=(), follow=True, other=None):
        """src and dst without trailing ''."""
        other = other or self
        link = self.islink(src) and not follow
        if not link and not self.exists(src):
            raise Err(MISSING)
        if not link and self.isdir(src) != bool(recursive):
            raise Err(ASSERT)
        if other.isdir(dst):
            if not src:
                raise Unclear()
            dst = dst + (src[-1],)
        if link:
            return self._copylink(src, dst, other)
        if not recursive:
            return self._copyfile(src, dst, other)
        rdst = other._realish(dst)
        if other is self and self._within(self.real(src), rdst):
            raise Err(SAME, ANY_OS)
        touched = self._touched(src, follow)
        for t in touched:
            if other is self and (self._within(t, rdst) or self._within(rdst, t)):
                raise Unclear()
        saved = other.root.clone()
        try:
            other.makedirs(dst)
            self._merge(src, dst, set(ignore), follow,
                        set(touched) if other is self else set(), set(), other)
        except Err:
            changed = other.snapshot() != RefFS._snap(saved)
            other.root = saved
            if changed:
                # stops in the middle
                raise Unclear()
            raise Err(ANY_OS)

    def _realish(self, p):
        """Real path of p, or of its nearest existing ancestor plus the rest."""
        p = tuple(p)
        rest = ()
        while p and not self.exists(p):
            rest = (p[-1],) + rest
            p = p[:-1]
        return self.real(p) + rest

    def _merge(self, src, dst, ignore, follow, touched, written, other):
        names = self.listdir(src)
        dirs = [n for n in names if self.isdir(src + (n,)) and n not in ignore]
        files = [n for n in names if not self.isdir(src + (n,))]

        def clear(real):
            # what is written twice, or is part of the source, depends on the order
            if real in written or real in touched:
                raise Unclear()
            written.add(real)

        for name in dirs + files:
            s, d = src + (name,), dst + (name,)
            if self.islink(s) and not follow:
                clear(other.real(dst) + (name,))
                self._copylink(s, d, other)
            elif self.isdir(s):
                other.makedirs(d)
                clear(other.real(d))
            else:
                clear(other.real(d))
                self._copyfile(s, d, other)
        for name in dirs:
            s = src + (name,)
            if follow or not self.islink(s):
                self._merge(s, dst + (name,), ignore, follow, touched, written, other)

    def _anylinks(self, p):
        node = self.look(p, False)
        if node is None:
            return False
        if node.kind == "l":
            return True
        return node.kind == "d" and any(self._anylinks(p + (n,)) for n in node.ch)

    def move(self, src, dst, other=None):
        other = other or self
        link = self.islink(src)
        if not link and not self.exists(src):
            raise Err(MISSING, errno.ENOENT, errno.ENOTDIR, errno.ELOOP)
        isdir = self.isdir(src) and not link
        if not src:
            raise Unclear()
        if other.isdir(dst):
            dst = dst + (src[-1],)
        sd, sname, snode, sreal = self.find(src, False)
        if isdir:
            rdst = (other._realish(dst) if not other.islink(dst) else
                    other.real(dst[:-1]) + dst[-1:])
            if other is self and self._within(sreal, rdst):
                raise Err(SAME, ANY_OS)
        try:
            dd, dname, dnode, dreal = other.find(dst, False)
        except Err:
            raise Err(ANY_OS)
        if dnode is not None:
            if dnode is snode:
                raise Err(SAME, ANY_OS, *([OK] if link else []))
            if isdir and dnode.kind != "d":
                raise Err(ANY_OS)
            if dnode.kind == "d":
                if not isdir or dnode.ch:
                    raise Err(ANY_OS)
            if link and dnode.kind == "f" and self.look(src) is dnode:
                # moving a link onto the file it refers to would lose the content
                raise Err(SAME, ANY_OS)
        if dnode is not None and dnode.kind == "l":
            del dd.ch[dname]
            if other.look(dst[:-1]) is not dd or self.look(src, False) is not snode:
                # target or source are reached through the link that is replaced
                dd.ch[dname] = dnode
                raise Unclear()
        del sd.ch[sname]
        if self.look(src[:-1]) is not sd:
            # the way to the source went through a link in it
            sd.ch[sname] = snode
            raise Unclear()
        dd.ch[dname] = snode

    # -- observation -------------------------------------------------------

    @staticmethod
    def _snap(root):
        out = {}

        def rec(node, path):
            for name, n in node.ch.items():
                p = path + (name,)
                if n.kind == "d":
                    out[p] = ("d",)
                    rec(n, p)
                elif n.kind == "f":
                    out[p] = ("f", n.data)
                else:
                    out[p] = ("l", n.target)
        rec(root, ())
        return out

    def snapshot(self):
        return self._snap(self.root)

    def paths(self):
        return sorted(self.snapshot())
