"""Files of the local backend that have several names: transfers between them lose nothing."""
import os

from hypothesis import strategies as st

from vh import gen, hist, worlds
from vh.core import need, outcome, same

from abl.vpath.base import URI

DIRS = ["", "s", "s/d", "t", "t/d", "t/s", "t/s/d"]


class Tree(object):

    def __init__(self, root, case):
        self.root = os.path.join(root, "r")
        os.mkdir(self.root)
        for d in DIRS[1:]:
            os.mkdir(self.at(d))
        self.names = [n for n in case["names"] if n not in ("s", "d", "t", "new")] or ["x"]
        for d, n, c in case["files"]:
            p = self.entry(d, n)
            if not os.path.lexists(self.at(p)):
                with open(self.at(p), "wb") as f:
                    f.write(hist.content(c))
        for k, d, n in case["links"]:
            files = sorted(self.snap())
            p = self.entry(d, n)
            if files and not os.path.lexists(self.at(p)):
                os.link(self.at(files[k % len(files)]), self.at(p))

    def at(self, p):
        return os.path.join(self.root, p) if p else self.root

    def entry(self, d, n):
        return os.path.join(DIRS[d % len(DIRS)], self.names[n % len(self.names)])

    def snap(self):
        out = {}
        for top, dirs, files in os.walk(self.root):
            for f in files:
                p = os.path.join(top, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def ino(self, p):
        return os.stat(self.at(p)).st_ino

    def uri(self, p, how):
        if how == 1:
            os.chdir(self.root)
            return URI("./" + p)
        if how == 2:
            return URI("file://" + self.at(p))
        if how == 3:
            u = URI(self.root)
            for n in p.split("/"):
                u = u / n
            return u
        return URI(self.at(p))


def run(case, ctx):
    ctx.defer(worlds.clean_registry)
    t = Tree(ctx.dir(), case)
    for op, i, j, how in case["ops"]:
        before = t.snap()
        files = sorted(before)
        if not files:
            return
        inos = {p: t.ino(p) for p in files}
        if op == "tree":
            src = ["s", "s/d", "t/d", "t/s"][i % 4]
            dst = (DIRS[1:] + ["new"])[j % len(DIRS)]
        else:
            src = files[i % len(files)]
            every = files + DIRS[1:] + [t.entry(j, j + 1)]
            dst = every[j % len(every)]
        at = os.path.join(dst, os.path.basename(src)) if os.path.isdir(t.at(dst)) else dst
        if op == "tree":
            if (at + "/").startswith(src + "/") or (src + "/").startswith(at + "/"):
                continue
            pairs = [(p, at + p[len(src):]) for p in files if p.startswith(src + "/")]
        else:
            if os.path.isdir(t.at(at)) or (at not in before and
                                           not os.path.isdir(os.path.dirname(t.at(at)))):
                continue
            pairs = [(src, at)]
        target = dict((q, p) for p, q in pairs)
        known = {inos[q]: target[q] for q in target if q in inos}
        twice = [p for p, q in pairs if q in inos and inos[q] == inos[p]]
        if any(inos[p] in known and known[inos[p]] != p for p, q in pairs):
            # writing one target changes another file that is to be copied
            continue
        if len(known) < len([q for q in target if q in inos]):
            continue
        what = "%s of %s to %s" % (op, src, dst)
        if op == "move":
            got = outcome(t.uri(src, how).move, t.uri(dst, how))
        else:
            got = outcome(t.uri(src, how).copy, t.uri(dst, how), recursive=op == "tree")
        after = t.snap()
        if twice:
            need(got[0] == "ok" or isinstance(got[1], OSError), "%s, files that are the same: %r", what, got[1])
            ctx.label(op + " between names of one file")
            ctx.nontrivial()
        else:
            need(got[0] == "ok", "%s raises %r", what, got[1])
        for p in sorted(set(before) | set(after)):
            old, new = before.get(p), after.get(p)
            if p in target:
                want = before[target[p]]
                if twice:
                    need(new in (old, want), "%s: %s is %r, not as before or as the source", what, p, new)
                else:
                    same(new, want, "%s: content of %s", what, p)
            elif op == "move" and p == src:
                need(new is None if not twice else new in (None, old), "%s: the source is %r", what, new)
            elif op != "move" and inos.get(p) in known:
                # another name of a file that is written to
                need(new in (old, before[known[inos[p]]]), "%s: %s is %r", what, p, new)
            else:
                same(new, old, "%s: content of %s", what, p)


def cases(ops):
    small = st.integers(0, 6)
    def gen_cases(tier):
        return st.fixed_dictionaries(dict(
            names=st.lists(gen.names(), min_size=1, max_size=3, unique=True),
            files=st.lists(st.tuples(small, small, hist.contents(False)).map(list), min_size=1, max_size=5),
            links=st.lists(st.tuples(small, small, small).map(list), min_size=1, max_size=5),
            ops=st.lists(st.tuples(st.sampled_from(ops), st.integers(0, 20), st.integers(0, 20),
                                   st.integers(0, 3)).map(list), min_size=1, max_size=4)))
    return gen_cases
