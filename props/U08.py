"""U08: scheme-aware URI parsing gives the written parts and fills in the missing ones."""
from hypothesis import strategies as st

from vh.core import Check, need, same

from abl.vpath.base import uriparse as up

# scheme -> user, password, host, port, path, query, fragment
TABLE = dict(http=(None, None, None, "80", "/", None, None), https=(None, None, None, "443", "/", None, None),
             ftp=("anonymous", "anonymous", None, "21", "/", None, None),
             imap=(None, None, "localhost", "143", "/", None, None),
             imaps=(None, None, "localhost", "993", "/", None, None),
             tftp=(None, None, None, "69", "/", None, None), telnet=(None, None, None, "23", "/", None, None),
             file=(None, None, None, None, "/", None, None))
GENERIC = (None, None, None, None, "/", None, None)
MAILTO = (None, None, None, None)


class Own(up.URLParser):
    _defaults = ("me", "secret", "home", 99, "/d", "a=b", None)


class Ours(up.HttpURLParser):
    pass


OWN = ("me", "secret", "home", "99", "/d", "a=b", None)


def parser(extra):
    """(URIParser, the table of what it knows)"""
    table = dict(TABLE)
    if not extra:
        return up.URIParser(), table
    if extra == "none":
        return up.URIParser(schemes={}), {}
    cls, vals = (Own, OWN) if extra[0] == "own" else (Ours, TABLE["http"])
    table[extra[1]] = vals
    if extra[2]:
        return up.URIParser(schemes=dict(up.URIParser.Schemes, **{extra[1]: cls})), table
    return up.URIParser(extra={extra[1]: cls}), table


def compose(p):
    s = p["scheme"] + ":"
    if p["kind"] == "mail":
        s += p["user"] or ""
        if p["host"] is not None:
            s += "@" + p["host"]
    else:
        if p["kind"] == "net":
            s += "//"
            if p["user"] is not None:
                s += p["user"] + ("" if p["password"] is None else ":" + p["password"]) + "@"
            s += p["host"] or ""
            if p["port"] is not None:
                s += ":" + p["port"]
        s += p["path"]
    if p["query"] is not None:
        s += "?" + p["query"]
    if p["fragment"] is not None:
        s += "#" + p["fragment"]
    return s


def run(case, ctx):
    p, given = case["uri"], case["defaults"]
    mail = p["kind"] == "mail"
    extra = case["extra"]
    if mail and extra and extra != "none":
        extra = None
    up_, table = parser(extra)
    text = compose(p)
    if mail and extra == "none":
        # then it is no address
        ctx.label("unknown mailto")
        return
    own = MAILTO if mail else table.get(p["scheme"], GENERIC)
    defaults = list(own)
    if given is not None:
        given = given[:len(own)]
        for i, v in enumerate(given):
            defaults[i] = str(v) if v else v
    if mail:
        parts = [p["user"] or None, p["host"] or None, p["query"], p["fragment"]]
    else:
        net = p["kind"] == "net"
        parts = [p["user"] if net else None, p["password"] if net else None, p["host"] if net else None,
                 p["port"] if net else None, p["path"] or None, p["query"], p["fragment"]]
    want = (p["scheme"],) + tuple(d if v is None else v for v, d in zip(parts, defaults))
    got = up_.parse(text, given) if given is not None else up_.parse(text)
    what = "parse(%r, %r) with %s" % (text, given, extra or "the known schemes")
    same(tuple(got), want, "%s", what)
    need(isinstance(got, tuple), "%s gives a %s", what, type(got).__name__)
    same(up_.scheme_of(text), p["scheme"], "scheme_of(%r)", text)
    same(up_.info_of(text), text[len(p["scheme"]) + 1:], "info_of(%r)", text)
    # others are not affected
    plain = up.URIParser().parse(text)
    own = MAILTO if mail else TABLE.get(p["scheme"], GENERIC)
    same(tuple(plain), (p["scheme"],) + tuple(d if v is None else v for v, d in zip(parts, own)),
         "parse(%r) of another parser, after %s", text, what)
    filled = sum(a != b for a, b in zip(parts, want[1:]))
    ctx.label("filled %d" % filled, p["scheme"] if p["scheme"] in TABLE or mail else "generic")
    if filled or sum(v is not None for v in parts) >= 3:
        ctx.nontrivial()
    # and back
    if "#" in "".join(v or "" for v in want[5:6]) or want[-1] is not None and p["scheme"] not in ("http", "https"):
        # only these know fragments
        return
    if mail:
        if None in want[1:3]:
            return
    else:
        user, password, host, port, path = want[1:6]
        rooted = (path or "/").startswith("/")
        if (user is None and password is not None) or (not rooted and (user or host or port)):
            # no text has these parts
            return
        if path is None:
            return
    again = up_.unparse(got)
    back = up_.parse(again, given) if given is not None else up_.parse(again)
    same(tuple(back), want, "%r, put together from %s, parsed again", again, want)
    if not filled and p["kind"] != "path":
        same(again, text, "unparse(%s)", want)
    ctx.label("put together")


PCHARS = "abcXYZ019-._~!$&'()*+,;=%"
WORD = st.text(alphabet="abcxyzABC0129-_.~%", min_size=1, max_size=5)


@st.composite
def uris(draw):
    kind = draw(st.sampled_from(["net"] * 6 + ["path", "path", "mail"]))
    if kind == "mail":
        scheme = "mailto"
    elif kind == "path":
        # not for schemes that have hosts
        scheme = draw(st.sampled_from(["urn", "file", "x-y", "news", "svn+ssh"]))
    else:
        scheme = draw(st.sampled_from(sorted(TABLE) + ["urn", "x-y", "own", "svn+ssh"]))
    http = scheme in ("http", "https")
    p = dict(scheme=scheme, kind=kind, user=None, password=None, host=None, port=None, path="", query=None,
             fragment=None)
    path = st.text(alphabet=PCHARS + "/:@" + ("" if http else "#"), max_size=8)
    if kind == "mail":
        p["user"] = draw(st.one_of(st.just(None), WORD, WORD))
        p["host"] = draw(st.one_of(st.just(None), WORD, WORD, st.just("")))
    elif kind == "net":
        if draw(st.booleans()):
            p["user"] = draw(WORD)
            if draw(st.booleans()):
                p["password"] = draw(st.text(alphabet=PCHARS + ":", min_size=1, max_size=5))
        p["host"] = draw(st.one_of(WORD.filter(lambda h: h != "."), WORD.filter(lambda h: h != "."), st.just(None)))
        if draw(st.booleans()):
            p["port"] = draw(st.sampled_from(["1", "80", "8080", "0", "http"]))
        p["path"] = draw(st.one_of(st.just(""), path.map(lambda t: "/" + t)))
    else:
        p["path"] = draw(path.filter(lambda t: not t.startswith("//")))
    if draw(st.booleans()):
        p["query"] = draw(st.text(alphabet=PCHARS + "/:@?" + ("" if http else "#"), max_size=6))
    if http and draw(st.booleans()):
        p["fragment"] = draw(st.text(alphabet=PCHARS + "/:@?#", max_size=6))
    return p


def cases(tier):
    value = st.one_of(st.none(), WORD, WORD)
    port = st.sampled_from([None, 1, 8080, "99"])
    defaults = st.tuples(value, value, value, port, st.sampled_from([None, "/", "/x/y"]), value, value,
                         st.integers(0, 7)).map(lambda t: list(t[:t[7]]))
    mail = st.lists(value, max_size=4)
    extra = st.one_of(st.none(), st.none(), st.just("none"), st.tuples(
        st.sampled_from(["own", "ours"]), st.sampled_from(["own", "own", "http", "urn", "file"]), st.booleans()).map(list))
    return uris().flatmap(lambda u: st.fixed_dictionaries(dict(
        uri=st.just(u), extra=extra,
        defaults=st.one_of(st.none(), mail if u["kind"] == "mail" else defaults))))


CHECKS = [
    Check("parts", cases, run, 8000, 300000,
          rule="a missing part is filled in, or at least three parts are written"),
]
