import os
import re

from hypothesis import strategies as st

from vh import gen
from vh.core import Check, need, same, outcome

from abl.vpath.base import URI

SCHEME = re.compile("[^.:/?#][^:/?#]*://")


def valid(p):
    if not p or "?" in p or "\\" in p or "\0" in p:
        return False
    if p.startswith("/"):
        return not re.match(r"/\.\.?(/|\Z)", p)
    return not re.match(r"[a-zA-Z]:(/|\Z)", p) and not SCHEME.match(p)


@st.composite
def paths(draw, absolute=None):
    comps = draw(st.lists(st.one_of(gen.names(control=True), gen.names(control=True),
                                    st.sampled_from(["..", ".", "", "localhost", "http://x", "file://y", ".h://x"])),
                          min_size=1, max_size=5))
    lead = draw(st.sampled_from(["/", "", "./", "../", "../../", "/", ""]))
    p = lead + "/".join(comps) + draw(st.sampled_from(["", "", "", "/", "//"]))
    return p


def expect(p):
    return (p,) if p.startswith("/") else (p, "./" + p)


def run_text(case, ctx):
    p = case
    u = URI(p)
    need(u.path in expect(p), "URI(%r).path is %r", p, u.path)
    f = URI("file://" + p)
    same(f.path, u.path, "path of URI(%r) and with 'file://' differ", p)
    need(f == u and u == f and not f != u, "URI(%r) is not equal to its 'file://' form", p)
    same(u.is_absolute, p.startswith("/"), "is_absolute of %r", p)
    same(f.is_absolute, p.startswith("/"), "is_absolute of file://%r", p)
    same(u.scheme, "file", "scheme of %r", p)
    same(dict(u.query), {}, "query of %r", p)
    need(str(u) in expect(p), "str(URI(%r)) is %r", p, str(u))
    same(URI(u.path).path, u.path, "path of the path of %r", p)
    same(URI(str(u)).path, u.path, "path of the text of %r", p)
    ctx.label("absolute" if p.startswith("/") else "relative")
    if not gen.is_plain(p.replace("/", "")) or not p.startswith("/"):
        ctx.nontrivial()


def run_dotted(case, ctx):
    """scheme:///./path is the alternative notation of a relative path."""
    p = case["dots"] + "".join("/" + c for c in case["comps"])
    u = URI(case["scheme"] + ":///" + p)
    same(u.path, p, "path of %s:///%s", case["scheme"], p)
    same(bool(u.is_absolute), False, "is_absolute of %s:///%s", case["scheme"], p)
    same(u.scheme, case["scheme"], "scheme of %s:///%s", case["scheme"], p)
    same(u.last(), (p.rsplit("/", 1)[-1]), "last of %s:///%s", case["scheme"], p)
    need(u == URI(u) and URI(u).path == p, "copy of %s:///%s", case["scheme"], p)
    if case["comps"]:
        same(u.dirname().path, p.rsplit("/", 1)[0], "directory of %s:///%s", case["scheme"], p)
        same(bool(u.dirname().is_absolute), False, "is_absolute of the directory of %s:///%s", case["scheme"], p)
    j = u / "n" / "m"
    same(j.path, p + "/n/m", "path joined to %s:///%s", case["scheme"], p)
    same(bool(j.is_absolute), False, "is_absolute of a path joined to %s:///%s", case["scheme"], p)
    if len(case["comps"]) > 1 or case["dots"] == "..":
        ctx.nontrivial()


def run_pair(case, ctx):
    p, q = case
    canon = [x if x.startswith(("/", "./")) else "./" + x for x in case]
    if canon[0] == canon[1] or "." in case and "./." in canon and canon[0] == canon[1]:
        return
    need(URI(p).path != URI(q).path, "%r and %r have the same path %r", p, q, URI(p).path)
    need(not URI(p) == URI(q), "%r and %r are equal", p, q)
    ctx.nontrivial()


def mutate(draw, p):
    i = draw(st.integers(0, len(p)))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return p[:i] + p[i + 1:]
    c = draw(st.sampled_from("/.#( )ab%~:@"))
    return p[:i] + c + p[i + (kind == 1):]


@st.composite
def pairs(draw):
    p = draw(paths().filter(valid))
    q = mutate(draw, p)
    if draw(st.booleans()):
        q = mutate(draw, q)
    return [p, q]


def run_real(case, ctx):
    """The file reached through the URI is the one the path names."""
    comps, absolute, slashes, decoy, data = (case["comps"], case["abs"], case["sep"],
                                             case["decoy"], case["data"])
    base = ctx.dir()
    os.chdir(base)
    rel = "/".join(comps)
    full = os.path.join(base, rel)
    try:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(data.encode("latin-1"))
    except OSError:
        return
    other = os.path.join(os.path.dirname(full), decoy)
    has_decoy = False
    if not os.path.lexists(other):
        with open(other, "wb") as f:
            f.write(b"decoy!" + data.encode("latin-1"))
        has_decoy = True
    p = (base + "/" + rel) if absolute else rel
    p = p.replace("/", slashes)
    if not valid(p):
        return
    u = URI(p)
    need(u.isfile(), "URI(%r).isfile() is false for an existing file", p)
    with u.open("rb") as f:
        same(f.read(), data.encode("latin-1"), "content read through URI(%r)", p)
    u.remove()
    need(not os.path.lexists(full), "removing URI(%r) left the file", p)
    if has_decoy:
        with open(other, "rb") as f:
            same(f.read(), b"decoy!" + data.encode("latin-1"), "other file after removing %r", p)
    with u.open("wb") as f:
        f.write(b"new")
    with open(full, "rb") as f:
        same(f.read(), b"new", "file written through URI(%r)", p)
    if not gen.is_plain(rel.replace("/", "")):
        ctx.nontrivial()


def real_cases(tier):
    n = gen.names(control=True)
    return st.fixed_dictionaries(dict(
        comps=st.lists(n, min_size=1, max_size=3), abs=st.booleans(),
        sep=st.sampled_from(["/", "/", "//", "/./"]), decoy=n,
        data=st.sampled_from(["", "x", "hello"])))


CHECKS = [
    Check("text", lambda t: paths().filter(valid), run_text, 14000, 400000,
          rule="path is relative or has a character other than a plain letter or digit"),
    Check("dotted", lambda t: st.fixed_dictionaries(dict(
        scheme=st.sampled_from(["file", "memory", "x-y"]), dots=st.sampled_from([".", ".", "..", "./..", "../.."]),
        comps=st.lists(gen.names(control=True), max_size=3))), run_dotted, 2000, 40000,
        rule="more than one name, or '..'"),
    Check("pairs", lambda t: pairs().filter(lambda c: valid(c[0]) and valid(c[1])), run_pair,
          8000, 200000, rule="the two paths differ by more than a leading './'"),
    Check("files", real_cases, run_real, 3000, 60000,
          rule="an existing file whose path has a character other than a plain letter or digit"),
]
