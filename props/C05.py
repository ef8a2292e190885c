"""C05: every installed backend plugin is registered; a broken one does not disturb the others."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vh.core import Check, need, same

PROGRAM = r'''
import json, os, sys
case = json.loads(sys.argv[1])
out = dict(error=None, answers={}, builtin={})
real = os.dup(1)
os.dup2(2, 1)
try:
    from abl.vpath.base import URI
    from abl.vpath.base import fs
    from abl.vpath.base.exceptions import NoSchemeError
    for scheme in case["schemes"]:
        try:
            u = URI("%s://h:7/x?k=v" % scheme)
            r = [type(u).__name__, type(u / "y").__name__]
            r.append(bool(u.exists()))
            c = u.connection
            r += [type(c).__name__, c.hostname, c.port, c.extras, (u / "y").get_connection() is c]
            r.append(sorted(u.listdir()))
        except NoSchemeError:
            r = "no scheme"
        out["answers"][scheme] = r
    for name, u in (("file", URI(os.getcwd() + "/t")), ("memory", URI("memory:///t")),
                    ("zip", URI("zip://((%s/t.zip))/t" % os.getcwd()))):
        with u.open("wb") as f:
            f.write(b"data")
        with u.open("rb") as f:
            out["builtin"][name] = f.read().decode()
except BaseException as e:
    import traceback
    traceback.print_exc()
    out["error"] = "%s: %s" % (type(e).__name__, e)
os.write(real, json.dumps(out).encode())
sys.stdout = sys.stderr
'''

GOOD = '''
from abl.vpath.base.fs import FileSystem, BaseUri, RevisionedUri

class %(uri)s(%(base)s):
    pass

class %(cls)s(FileSystem):
    scheme = %(scheme)r
    uri = %(uri)s
    def _initialize(self):
        pass
    def exists(self, path):
        return True
    def listdir(self, path):
        return [%(scheme)r]
'''
BAD = {
    "raises": "raise RuntimeError('broken plugin')\n",
    "imports": "import a_module_that_is_not_there\n",
    "syntax": "def broken(:\n",
    "empty": "",
    "os": "open('/nonexistent/file')\n",
    "zero": "1 / 0\n",
    "stop": "raise StopIteration\n",
    "assert": "assert False\n",
    "key": "{}['x']\n",
    # no backend classes, although they can be loaded
    "function": "def %(cls)s(*args, **kw):\n    pass\n",
    "number": "%(cls)s = 5\n",
    "module": "import os as %(cls)s\n",
    "no uri": "from abl.vpath.base.fs import FileSystem\nclass %(cls)s(FileSystem):\n    scheme = %(scheme)r\n",
    "no scheme": "class %(cls)s(object):\n    uri = object\n",
}
BUILTIN = ("zip", "memory", "file")


def run(case, ctx):
    d = ctx.dir()
    lib, cwd = d + "/lib", d + "/cwd"
    os.mkdir(lib)
    os.mkdir(cwd)
    want = {}
    schemes = []
    for i, dist in enumerate(case["dists"]):
        info = "%s/dist_%d-1.0.dist-info" % (lib, i)
        os.mkdir(info)
        lines = ["[abl.vpath.plugins]"]
        for j, (scheme, kind, rev) in enumerate(dist):
            mod = "plugmod_%d_%d" % (i, j)
            v = dict(scheme=scheme, cls="Backend%d_%d" % (i, j), uri="Uri%d_%d" % (i, j),
                     base="RevisionedUri" if rev else "BaseUri")
            schemes.append(scheme)
            if kind == "missing":
                pass
            elif kind in BAD:
                with open("%s/%s.py" % (lib, mod), "w") as f:
                    f.write(BAD[kind] % v if "%(" in BAD[kind] else BAD[kind])
            else:
                with open("%s/%s.py" % (lib, mod), "w") as f:
                    f.write(GOOD % v)
            lines.append("name%d%s = %s:%s" % (j, "" if case.get("same") else i, mod, v["cls"]))
            if kind == "good":
                want[scheme] = [v["uri"], v["uri"], True, v["cls"], "h", 7, {"k": "v"}, True, [scheme]]
            else:
                want[scheme] = "no scheme"
        if case["other"]:
            # entry points of others are none of our business
            lines += ["[other.plugins]", "x = a_module_that_is_not_there:X"]
        with open(info + "/METADATA", "w") as f:
            f.write("Metadata-Version: 2.1\nName: dist-%d\nVersion: 1.0\n" % i)
        with open(info + "/entry_points.txt", "w") as f:
            f.write("\n".join(lines) + "\n")
    env = dict(os.environ, PYTHONPATH=lib + ":/repo", HOME=d)
    arg = json.dumps(dict(schemes=schemes))
    p = subprocess.run([sys.executable, "-c", PROGRAM, arg], env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    need(p.stdout, "the program gives no answer (%s): %s", p.returncode, p.stderr[-500:])
    out = json.loads(p.stdout)
    need(out["error"] is None, "with these plugins the library fails with %s", out["error"])
    for s in schemes:
        same(out["answers"][s], want[s], "plugin for %r (kinds of URI, backend, its address, its answer)", s)
    same(out["builtin"], dict(file="data", memory="data", zip="data"), "contents through the built-in backends")
    good = sum(1 for x in case["dists"] for _, k, _ in x if k == "good")
    ctx.label("good %d of %d" % (good, len(schemes)))
    if len(schemes) > 1 and good:
        ctx.nontrivial()


@st.composite
def cases(draw):
    schemes = draw(st.lists(st.sampled_from(["aa", "svn+ssh", "x-y", "ftp", "webdav", "z+z", "abc", "s3", "v1.x"]),
                            min_size=1, max_size=5, unique=True))
    plugs = [[s, draw(st.sampled_from(["good", "good", "good"] + sorted(BAD) + ["missing"])), draw(st.booleans())]
             for s in schemes]
    cut = draw(st.integers(0, len(plugs)))
    return dict(dists=[x for x in (plugs[:cut], plugs[cut:]) if x], other=draw(st.booleans()), same=draw(st.booleans()))


CHECKS = [
    Check("plugins", lambda t: cases(), run, 160, 3000, shrink=True,
          rule="several plugins are installed and at least one of them works"),
]
