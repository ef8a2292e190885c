import re
import unicodedata
from urllib.parse import quote, unquote

from hypothesis import strategies as st

from vh import gen, uris
from vh.core import Check, need

from abl.vpath.base import URI
from abl.vpath.base.simpleuri import UriParse


def ident(p):
    return (p["scheme"], p["host"], p["port"], p["path"], p["connector"],
            tuple(sorted(map(tuple, p["query"]))))


def build(p):
    if p["scheme"] == "file":
        t = p["path"]
        if p["prefix"]:
            t = "file://" + t
        if p["query"]:
            t += "?" + uris.text(p).split("?", 1)[1]
    else:
        t = uris.text(p)
    u = URI(t, **p["extras"])
    if p.get("via") == 1:
        u = URI(u)
    elif p.get("via") == 2 and p["path"] not in ("", "/"):
        u = (u / "tmp").dirname() if not p["path"].endswith("/") else u
    elif p.get("via") == 3:
        # the query is set afterwards
        q = list(u.query.items())
        u.query.clear()
        for k, v in reversed(q):
            u.query[k] = v
    return u, t


SMALL = dict(
    host=st.sampled_from([None, "h", "g"]), port=st.sampled_from([None, None, 80, 81]),
    path=st.sampled_from(["/a", "/b", "/a/", "/a/b", "/", "/A", "/a#b", "/a#", "/.a"]),
    connector=st.sampled_from([None, None, "/x.zip", "/y.zip", "memory:///x.zip", "/x.zip?k=v"]),
    query=st.sampled_from([[], [], [["k", "v"]], [["k", "w"]], [["l", "v"]], [["k", "v"], ["l", "w"]],
                           [["l", "w"], ["k", "v"]], [["k", ""]]]),
    scheme=st.sampled_from(["probe", "zip", "memory", "http", "file", "x-y"]))


@st.composite
def small(draw):
    p = {k: draw(v) for k, v in SMALL.items()}
    if p["scheme"] == "http" and p["host"] is None:
        p["host"] = "h"
    if p["scheme"] in ("memory", "file"):
        p["host"] = None
        p["connector"] = None
    if p["connector"] is not None:
        p["host"] = None
    if p["host"] is None:
        p["port"] = None
    if p["scheme"] == "http":
        p["path"] = p["path"].replace("#", "")
    p["fragment"] = None
    deco(draw, p)
    return p


def deco(draw, p):
    """Things that do not matter for equality."""
    p["user"] = p["password"] = None
    if p["host"] is not None and draw(st.booleans()):
        p["user"] = draw(st.sampled_from(["u", "v"]))
        p["password"] = draw(st.sampled_from([None, "p"]))
    p["prefix"] = draw(st.booleans())
    p["via"] = draw(st.integers(0, 3))
    p["extras"] = draw(st.sampled_from([{}, {}, {"opt": "1"}]))


def tweak(draw, s, alphabet="aA0%+ /.#\u00fc"):
    """A slightly different text."""
    k = draw(st.integers(0, max(0, len(s) - 1)))
    how = draw(st.sampled_from(["case", "case", "all", "add", "drop", "slash", "nfc", "quote", "unquote",
                                "space", "dot", "blank"]))
    if how == "case":
        return s[:k] + s[k:k + 1].swapcase() + s[k + 1:]
    if how == "all":
        return s.swapcase()
    if how == "add":
        return s[:k + 1] + draw(st.sampled_from(alphabet)) + s[k + 1:]
    if how == "drop":
        return s[:k + 1] + s[k + 2:]
    if how == "slash":
        return s[:-1] if s.endswith("/") and len(s) > 1 else s + "/"
    if how == "nfc":
        t = unicodedata.normalize("NFC", s)
        return t if t != s else unicodedata.normalize("NFD", s)
    if how == "quote":
        return s[:k + 1] + quote(s[k + 1:k + 2], safe="") + s[k + 2:]
    if how == "unquote":
        t = unquote(s)
        return s if any(c in t for c in "?\\") or "\0" in t else t
    if how == "space":
        return s.replace(" ", "+") if " " in s else s.replace("+", " ")
    if how == "dot":
        return s + "."
    return s + " "


def tweaked(draw, b):
    """A URI that differs from b in one text, very little."""
    key = draw(st.sampled_from([k for k in ("host", "path", "path", "connector", "query") if b[k]]))
    b = dict(b)
    if key == "query":
        q = [list(kv) for kv in b["query"]]
        i = draw(st.integers(0, len(q) - 1))
        j = draw(st.integers(0, 1))
        v = tweak(draw, q[i][j])
        # surrounding blanks of names and values have no meaning
        if v and v == v.strip() and (j or v not in [kv[0] for kv in q]) and v not in ("username", "password"):
            q[i][j] = v
        b["query"] = q
    elif key == "host":
        v = tweak(draw, b["host"], "aA0-")
        if v.strip() and all(c.isalnum() and c.isascii() or c in "-_." for c in v) and not v.startswith("."):
            b["host"] = v
    elif key == "path":
        v = "/" + tweak(draw, b["path"][1:])
        if not re.match(r"/\.\.?(/|\Z)", v) and "?" not in v and "//" not in v:
            b["path"] = v
    else:
        v = tweak(draw, b["connector"], "aA0 ")
        if v.startswith(("/", "memory:///")) and not v.endswith(")") and v.count("?") < 2 and "))" not in v \
                and "#" not in v:
            b["connector"] = v
    return b


@st.composite
def variants(draw):
    """Three URIs: a random one and neighbours that differ in few parts."""
    a = draw(st.one_of(small(), small(), big()))
    out = [a]
    for _ in range(2):
        b = dict(out[-1])
        small_step = draw(st.booleans())
        if small_step:
            b = tweaked(draw, b)
        for key in [] if small_step else draw(st.lists(st.sampled_from(
                ["host", "port", "path", "connector", "query", "scheme"]), max_size=2)):
            b[key] = draw(SMALL[key])
        if b["scheme"] in ("memory", "file", "http"):
            b["connector"] = None
        if b["connector"] is not None or b["scheme"] in ("memory", "file"):
            b["host"] = None
        if b["scheme"] == "http" and b["host"] is None:
            b["host"] = "h"
        if b["scheme"] == "http":
            b["path"] = b["path"].replace("#", "")
        b["path"] = b["path"].replace("//", "/")
        if b["host"] is None:
            b["port"] = None
        if not b["path"]:
            b["path"] = "/"
        deco(draw, b)
        out.append(b)
    return out


@st.composite
def big(draw):
    p = draw(uris.parts(schemes=["probe", "zip", "memory", "http"], control=True))
    deco(draw, p)
    return p


def run(case, ctx):
    us = [build(p) for p in case]
    ids = [ident(p) for p in case]
    for i, (u, t) in enumerate(us):
        need(u == u and not u != u, "%r does not equal itself", t)
        for o in (None, t, str(u), 0, object(), (t,), [u], UriParse(t), u.parse_result):
            need(not (u == o) and u != o, "%r equals the non-URI %r", t, o)
        for j, (v, s) in enumerate(us):
            want = ids[i] == ids[j]
            need((u == v) is want, "%r == %r is %r, expected %r", t, s, u == v, want)
            need((v == u) is want, "%r == %r is %r, expected %r", s, t, v == u, want)
            need((u != v) is (not want), "%r != %r is %r, expected %r", t, s, u != v, not want)
            if i < j:
                ctx.label("equal" if want else "different")
                if not want or t != s:
                    ctx.nontrivial()


CHECKS = [
    Check("triples", lambda t: variants(), run, 12000, 300000,
          rule="two of the three URIs are different in their parts or in their text"),
]
