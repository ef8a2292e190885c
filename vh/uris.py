"""Structured URIs: generated as parts, written as text, compared part by part."""
from urllib.parse import quote, quote_plus

from hypothesis import strategies as st

from vh import gen

USERCHARS = "abcXYZ019-._~!$&'*+,;=%"
HOSTCHARS = "abcxyzAX019-._"
SCHEMES = ["probe", "probe", "memory", "svn+ssh", "x-y", "http", "https", "s3", "v1.x", "h2+ssh", "S3"]


@st.composite
def parts(draw, schemes=SCHEMES, queries=True, containers=True, creds=True, rooted=True,
          trailing=True, fragments=False, control=False):
    """dict(scheme, user, password, host, port, connector, path, query, fragment)."""
    scheme = draw(st.sampled_from(schemes))
    http = scheme in ("http", "https")
    p = dict(scheme=scheme, user=None, password=None, host=None, port=None, connector=None,
             path="", query=[], fragment=None)
    kind = draw(st.sampled_from(["none", "host", "host", "zip"]))
    if http or (kind == "zip" and not containers):
        kind = "host"
    if scheme == "memory":
        kind = "none"
    if kind == "zip":
        p["connector"] = draw(connectors())
    elif kind == "host":
        p["host"] = draw(st.text(alphabet=HOSTCHARS, min_size=1, max_size=5).filter(
            lambda s: s != "." and not s.startswith(".")))
        if draw(st.booleans()):
            p["port"] = draw(st.one_of(st.sampled_from([1, 80, 8080]), st.integers(1, 65535)))
        if creds and draw(st.booleans()):
            p["user"] = draw(st.text(alphabet=USERCHARS, min_size=1, max_size=5))
            if draw(st.booleans()):
                p["password"] = draw(st.text(alphabet=USERCHARS + ":", min_size=1, max_size=5))
        # an empty port is none
        p["colon"] = p["port"] is None and draw(st.sampled_from([False] * 5 + [True]))
    # sometimes one of the parts is long
    big = draw(st.integers(0, 79))
    if big == 1 and p["host"]:
        p["host"] += ".example-host" * draw(st.integers(1, 19))
    elif big == 2 and p["user"]:
        p["user"] += "n" * draw(st.integers(50, 400))
    elif big == 3 and p["password"]:
        p["password"] += "p" * draw(st.integers(50, 400))
    exclude = "#" if http else ""
    comps = draw(st.lists(gen.names(exclude=exclude, control=control), max_size=3))
    if big == 4:
        comps += ["d%d" % i for i in range(draw(st.integers(5, 150)))]
    path = "".join("/" + c for c in comps)
    if trailing and draw(st.sampled_from([False, False, True])) or (not path and (
            rooted and not (kind == "host" and draw(st.booleans())))):
        path += "/"
    if kind == "none" and not path:
        path = "/"
    p["path"] = path
    if queries and draw(st.booleans()):
        keys = draw(st.lists(gen.texts().filter(
            lambda k: k and k not in ("username", "password")), min_size=1, max_size=3,
            unique=True))
        p["query"] = [[k, draw(gen.texts())] for k in keys]
        if big in (5, 6):
            p["query"] += [["p%d" % i, str(i)] for i in range(draw(st.integers(5, 300))) if "p%d" % i not in keys]
        p["style"] = draw(st.integers(0, 3))
    if fragments and http and draw(st.booleans()):
        p["fragment"] = draw(st.text(alphabet="abc/?:@=&#", min_size=1, max_size=5))
    return p


@st.composite
def connectors(draw):
    """Text naming an archive file."""
    prefix = draw(st.sampled_from(["/", "file:///", "memory:///", "./", "file://./", "memory:///d/"]))
    comps = draw(st.lists(gen.names(), min_size=1, max_size=2))
    s = prefix + "/".join(comps)
    if draw(st.sampled_from([False, False, True])):
        s += "?k=%s" % draw(st.sampled_from(["v", "w", "a%2Fb"]))
    if "))/" in s or s.endswith("))") or "))?" in s or "))#" in s or s.endswith(")"):
        s += ".zip"
    s = s.replace("))/", ")_/").replace("))?", ")_?").replace("))#", ")_#")
    return s


def netloc(p):
    if p["connector"] is not None:
        return "((%s))" % p["connector"]
    s = ""
    if p["user"] is not None:
        s += p["user"]
        if p["password"] is not None:
            s += ":" + p["password"]
        s += "@"
    s += p["host"] or ""
    if p["port"] is not None:
        s += ":%d" % p["port"]
    elif p.get("colon"):
        s += ":"
    return s


def as_query(s, style, key=False):
    """s as it may be written in a query: quoted like a form, only where that
    is needed, with %20 for a space, or with every character quoted."""
    if style == 0:
        return quote_plus(s)
    if style == 2:
        return quote(s, safe="!$'()*,;:@/?") if not key else quote(s, safe="")
    if style == 3:
        return "".join("%%%02x" % b for b in s.encode("utf-8"))
    t = "".join("+" if c == " " else c if c not in "&%#+?\\" + ("=" if key else "") else quote(c, safe="") for c in s)
    for end in (0, -1):
        if t and t[end].isspace():
            q = quote(t[end], safe="")
            t = q + t[1:] if end == 0 else t[:-1] + q
    return t


def text(p):
    s = "%s://%s%s" % (p["scheme"], netloc(p), p["path"])
    if p["query"]:
        s += "?" + "&".join(
            "%s=%s" % (as_query(k, p.get("style", 0), True), as_query(v, p.get("style", 0))) for k, v in p["query"])
    if p["fragment"] is not None:
        s += "#" + p["fragment"]
    return s


def facts(u):
    """What a URI object says about itself, except for its path."""
    return dict(scheme=u.scheme, user=u.username or None, password=u.password or None,
                host=u.hostname or None, port=u.port or None, connector=u.vpath_connector or None,
                query=dict(u.query))


def wanted(p):
    return dict(scheme=p["scheme"], user=p["user"], password=p["password"], host=p["host"],
                port=p["port"], connector=p["connector"], query=dict(map(tuple, p["query"])))
