"""W01: a temporary working directory is always left again."""
import os

from hypothesis import strategies as st

from vh.core import Check, need, outcome, same

from abl.vpath.base import URI
from abl.vpath.base.misc import WorkingDirectory


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


RAISES = dict(value=ValueError, os=OSError, stop=Stop, hard=Hard, keyboard=KeyboardInterrupt,
              exit=SystemExit, generator=GeneratorExit)
# 'l' is a link to 'a/b'
DIRS = ["a", "a/b", "a/b/c d", "u\u00fc", "u\u00fc/.h", "l", "l/..", "l/../b", "a/../l/c d", "$HOME", "~",
        "a/$X", "~root", " s ", "a/%41", "{a,b}", "a/-", "a/#b", "\t", "...", "a/b/..."]
MISSING = ["nope", "a/file"]
STYLES = ["abs", "rel", "url", "joined"]


class World(object):

    def __init__(self, ctx):
        self.root = os.path.realpath(ctx.dir())
        for d in DIRS:
            if "l" not in d.split("/"):
                os.makedirs(os.path.join(self.root, d), exist_ok=True)
        os.symlink(os.path.join(self.root, "a/b"), os.path.join(self.root, "l"))
        with open(os.path.join(self.root, "a/file"), "w"):
            pass
        self.count = 0
        self.ctx = ctx
        self.objs = {}        # (directory, how it is given) -> WorkingDirectory, made once
        self.depth = self.deepest = 0
        self.left = 0

    def path(self, d):
        return os.path.join(self.root, d)

    def here(self):
        return os.getcwd()

    def obj(self, d, style, fresh):
        """A context for the directory d and the real directory it enters from here."""
        here = os.getcwd()
        if style == "rel":
            arg = os.path.relpath(os.path.realpath(self.path(d)), here)
            # a relative path means another directory in another place
            key = (arg, style)
        else:
            arg = self.path(d)
            key = (d, style)
        if fresh or key not in self.objs:
            u = (URI("file://" + arg) if style == "url" else
                 URI(self.root) / d if style == "joined" else URI(arg))
            self.objs[key] = WorkingDirectory(u)
        return self.objs[key]


def program(w, steps):
    for step in steps:
        name = step[0]
        if name == "touch":
            # relative operations act below the current directory
            w.count += 1
            n = "f%d" % w.count
            here = os.getcwd()
            u = URI(n) if step[1] else URI("./" + n)
            with u.open("wb") as f:
                f.write(n.encode())
            p = os.path.join(here, n)
            need(os.path.exists(p), "a relative path written in %s is not there", here)
            need(u.exists() and n in URI(".").listdir(), "relative queries in %s", here)
            os.unlink(p)
        elif name == "chdir":
            os.chdir(w.path(DIRS[step[1] % len(DIRS)]))
        elif name == "bad":
            here = os.getcwd()
            wd = WorkingDirectory(URI(w.path(MISSING[step[1] % 2])))
            kind, val = outcome(wd.__enter__)
            need(kind == "err" and isinstance(val, OSError), "entering a missing directory gives %r", val)
            same(os.getcwd(), here, "directory after failing to enter another")
            w.ctx.label("cannot enter")
        elif name == "enter":
            _, d, style, fresh, body, end = step
            d = DIRS[d % len(DIRS)]
            here = os.getcwd()
            wd = w.obj(d, STYLES[style], fresh)
            err = RAISES[end](w.count) if end in RAISES else None
            w.depth += 1
            w.deepest = max(w.deepest, w.depth)
            try:
                with wd:
                    same(os.getcwd(), os.path.realpath(w.path(d)), "directory inside the context")
                    program(w, body)
                    if err is not None:
                        raise err
            except BaseException as e:
                if e is not err:
                    raise
                w.ctx.label("left by " + end)
                same(os.getcwd(), here, "directory after leaving the context by %s", end)
            else:
                need(err is None, "the exception %r raised inside the context got lost", err)
                same(os.getcwd(), here, "directory after leaving the context")
            w.depth -= 1
            w.left += 1


def run(case, ctx):
    w = World(ctx)
    os.chdir(w.path(DIRS[case["start"]]))
    start = os.getcwd()
    steps = case["steps"]
    program(w, steps)
    if not any(s[0] == "chdir" for s in steps):
        same(os.getcwd(), start, "directory in the end")
    if w.deepest > 1 or w.left > 1:
        ctx.nontrivial()


def run_deep(case, ctx):
    """Contexts within each other, many of them the same ones."""
    steps = [["touch", False]]
    for d, style, fresh, end in reversed(case["levels"]):
        steps = [["enter", case["dirs"][d % len(case["dirs"])], style, fresh, steps, end], ["touch", True]]
    run(dict(start=case["start"], steps=steps), ctx)
    ctx.label("%d levels" % (len(case["levels"]) // 20 * 20))


def deep_cases(tier):
    level = st.tuples(st.integers(0, 3), st.integers(0, 3), st.sampled_from([False, False, False, True]),
                      st.sampled_from(["end"] * 6 + sorted(RAISES))).map(list)
    return st.fixed_dictionaries(dict(
        start=st.integers(0, 20), dirs=st.lists(st.integers(0, 20), min_size=1, max_size=3),
        levels=st.one_of(st.integers(2, 30), st.integers(2, 120)).flatmap(
            lambda n: st.lists(level, min_size=n, max_size=n))))


def steps():
    leaf = st.one_of(st.tuples(st.just("touch"), st.booleans()).map(list),
                     st.tuples(st.just("chdir"), st.integers(0, 20)).map(list),
                     st.tuples(st.just("bad"), st.integers(0, 1)).map(list))

    def enter(children):
        return st.tuples(st.just("enter"), st.integers(0, 20), st.integers(0, 3), st.booleans(),
                         st.lists(st.one_of(children, children, leaf), max_size=3),
                         st.sampled_from(["end", "end", "end"] + sorted(RAISES))).map(list)
    tree = st.recursive(enter(leaf), enter, max_leaves=6)
    return st.lists(st.one_of(tree, tree, leaf), min_size=1, max_size=4)


CHECKS = [
    Check("nestings", lambda t: st.fixed_dictionaries(dict(start=st.integers(0, 20), steps=steps())),
          run, 6000, 150000, rule="contexts are nested, or more than one is entered"),
    Check("deep", deep_cases, run_deep, 300, 10000, rule="contexts are nested"),
]
