"""U07: generic URI splitting, reassembly and reference resolution."""
from hypothesis import strategies as st

from vh import gen
from vh.core import Check, need, same

from abl.vpath.base import uriparse as up


def compose(scheme, authority, path, query, fragment):
    """RFC 3986 5.3."""
    s = ""
    if scheme is not None:
        s += scheme + ":"
    if authority is not None:
        s += "//" + authority
    s += path
    if query is not None:
        s += "?" + query
    if fragment is not None:
        s += "#" + fragment
    return s


# -- splitting and reassembly ------------------------------------------------

# scheme -> defaults of user, password, host, port, path (query and fragment: none)
DEFAULTS = dict(http=(None, None, None, "80", "/"), https=(None, None, None, "443", "/"),
                ftp=("anonymous", "anonymous", None, "21", "/"),
                imap=(None, None, "localhost", "143", "/"),
                imaps=(None, None, "localhost", "993", "/"),
                tftp=(None, None, None, "69", "/"), telnet=(None, None, None, "23", "/"),
                file=(None, None, None, None, "/"))
OTHER = (None, None, None, None, "/")


def split_run(case, ctx):
    c = tuple(case["parts"])
    auth = case["auth"]
    text = compose(*c)
    got = up.urisplit(text)
    same(tuple(got), c, "urisplit(%r)", text)
    same(up.uriunsplit(got), text, "uriunsplit(urisplit(%r))", text)
    same(up.uriunsplit(c), text, "uriunsplit(%r)", c)
    same(up.URIParser().scheme_of(text), c[0], "scheme_of(%r)", text) if c[0] else None
    if auth is not None:
        same(tuple(up.split_authority(c[1])), tuple(auth), "split_authority(%r)", c[1])
        same(up.join_authority(up.split_authority(c[1])), c[1],
             "join_authority(split_authority(%r))", c[1])
        same(up.join_authority(tuple(auth)), c[1], "join_authority(%r)", auth)
        if c[0]:
            defaults = DEFAULTS.get(c[0], OTHER)
            if case["defaults"]:
                defaults = tuple(case["defaults"][:5])
            want = tuple(v if v is not None else d for v, d in zip(auth, defaults))
            want = (c[0],) + want + (c[2] or defaults[4], c[3], c[4])
            given = tuple(defaults) + (None, None) if case["defaults"] else None
            same(tuple(up.URIParser().parse(text, given)), want,
                 "URIParser().parse(%r, %r)", text, given)
    if sum(x not in (None, "") for x in c) >= 3:
        ctx.nontrivial()
    ctx.label("http" if (c[0] or "").startswith("http") else "no scheme" if c[0] is None else "other")


AUTHCHARS = gen.PLAIN + ".-_~!$&'*+,;=%"
SCHEMES = ["http", "https", "ftp", "file", "imap", "imaps", "tftp", "telnet", "svn+ssh", "x-y", "z"]


@st.composite
def split_cases(draw):
    scheme = draw(st.sampled_from(SCHEMES + [None]))
    web = scheme in (None, "http", "https")
    kind = draw(st.sampled_from(["none", "full", "full", "full", "empty", "inner"]))
    if kind == "inner" and scheme is None:
        kind = "full"
    auth = authority = None
    if kind == "full":
        host = draw(st.one_of(st.none(), st.text(alphabet=AUTHCHARS, min_size=1, max_size=5)))
        user = draw(st.one_of(st.none(), st.text(alphabet=AUTHCHARS, min_size=1, max_size=5)))
        pw = draw(st.one_of(st.none(), st.text(alphabet=AUTHCHARS + ":", min_size=1, max_size=5)))
        port = draw(st.one_of(st.none(), st.integers(0, 70000).map(str)))
        if user is None:
            pw = None
        if host == "." and user is None and port is None:
            host = "h"
        auth = [user, pw, host, port]
        authority = (user + (":" + pw if pw is not None else "") + "@" if user else "") + \
            (host or "") + (":" + port if port is not None else "")
    elif kind == "empty":
        authority = ""
    elif kind == "inner":
        inner = draw(st.text(alphabet="ab/:?#()@.=&", max_size=8))
        authority = "((%s))" % inner
        if inner.endswith(")") or any("))" + c in authority[:-2] for c in "/?#"):
            authority = "((x.zip))"
    seg = st.text(alphabet=AUTHCHARS + ":@ \n\u00fc()" + ("" if web else "#"), max_size=4)
    segs = draw(st.lists(seg, max_size=4))
    if authority is not None:
        path = "".join("/" + s for s in segs)
    else:
        path = draw(st.sampled_from(["", "/"])) + "/".join(segs)
        while path.startswith("//"):
            path = path[1:]
        if scheme is None and ":" in path.split("/")[0]:
            path = "/" + path
    text = st.text(alphabet=AUTHCHARS + ":@/? \n\u00fc()" + ("" if web else "#"), max_size=6)
    query = draw(st.one_of(st.none(), text))
    fragment = draw(st.one_of(st.none(), st.text(alphabet=AUTHCHARS + ":@/?# \n", max_size=6))) if web else None
    word = st.text(alphabet="defgh", min_size=1, max_size=3)
    defaults = draw(st.one_of(st.none(), st.tuples(word, word, word, st.integers(1, 99).map(str),
                                                   word.map(lambda w: "/" + w)).map(list)))
    return dict(parts=[scheme, authority, path, query, fragment], auth=auth, defaults=defaults)


# -- reference resolution ----------------------------------------------------

def remove_dots(path):
    """RFC 3986 5.2.4, word for word."""
    out = ""
    while path:
        if path.startswith("../"):
            path = path[3:]
        elif path.startswith("./"):
            path = path[2:]
        elif path.startswith("/./"):
            path = path[2:]
        elif path == "/.":
            path = "/"
        elif path.startswith("/../"):
            path = path[3:]
            out = out[:out.rindex("/")] if "/" in out else ""
        elif path == "/..":
            path = "/"
            out = out[:out.rindex("/")] if "/" in out else ""
        elif path in (".", ".."):
            path = ""
        else:
            i = path.find("/", 1)
            i = len(path) if i < 0 else i
            out += path[:i]
            path = path[i:]
    return out


def resolve(base, ref):
    """RFC 3986 5.2.2 for parsed base and reference; (target, path was resolved)."""
    bs, ba, bp, bq, _ = base
    rs, ra, rp, rq, rf = ref
    if rs is not None:
        return (rs, ra, rp, rq, rf), False
    if ra is not None:
        return (bs, ra, rp, rq, rf), False
    if rp == "":
        return (bs, ba, bp, rq if rq is not None else bq, rf), False
    if rp.startswith("/"):
        return (bs, ba, remove_dots(rp), rq, rf), True
    merged = "/" + rp if ba is not None and not bp else bp[:bp.rfind("/") + 1] + rp
    return (bs, ba, remove_dots(merged), rq, rf), True


RFC = [("g:h", "g:h"), ("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"),
       ("/g", "http://a/g"), ("//g", "http://g"), ("?y", "http://a/b/c/d;p?y"),
       ("g?y", "http://a/b/c/g?y"), ("#s", "http://a/b/c/d;p?q#s"), ("g#s", "http://a/b/c/g#s"),
       ("g?y#s", "http://a/b/c/g?y#s"), (";x", "http://a/b/c/;x"), ("", "http://a/b/c/d;p?q"),
       (".", "http://a/b/c/"), ("./", "http://a/b/c/"), ("..", "http://a/b/"), ("../g", "http://a/b/g"),
       ("../..", "http://a/"), ("../../g", "http://a/g"), ("../../../g", "http://a/g"),
       ("/../g", "http://a/g"), ("g.", "http://a/b/c/g."), ("..g", "http://a/b/c/..g"),
       ("./../g", "http://a/b/g"), ("./g/.", "http://a/b/c/g/"), ("g/../h", "http://a/b/c/h"),
       ("g;x=1/../y", "http://a/b/c/y"), ("g?y/../x", "http://a/b/c/g?y/../x"),
       ("g#s/../x", "http://a/b/c/g#s/../x")]


def join_run(case, ctx):
    base, ref = tuple(case["base"]), tuple(case["ref"])
    want, resolved = resolve(base, ref)
    bt, rt = compose(*base), compose(*ref)
    got = up.urljoin(bt, rt)
    ok = [compose(*want)]
    if resolved:
        short = want[2].rstrip("/") or ("/" if want[2].startswith("/") else "")
        ok.append(compose(want[0], want[1], short, want[3], want[4]))
    need(got in ok, "urljoin(%r, %r) is %r, expected %r", bt, rt, got, ok[0])
    if resolved and ("." in ref[2].split("/") or ".." in ref[2].split("/") or ref[2].startswith("/")):
        ctx.nontrivial()
    ctx.label("scheme" if ref[0] else "authority" if ref[1] is not None else
              "absolute" if ref[2].startswith("/") else "relative" if ref[2] else "no path")


def rfc_run(case, ctx):
    ref, want = RFC[case]
    got = up.urljoin("http://a/b/c/d;p?q", ref)
    need(got == want or got == want.rstrip("/") or (want.endswith("/") and got == want),
         "urljoin of the RFC's example %r is %r, expected %r", ref, got, want)
    ctx.nontrivial()


@st.composite
def join_cases(draw):
    plain = st.sampled_from(["a", "b", "c.d", "e;x=1", "..g", "g.", "...", "%2E", "f,g", "a b", "\u00fc"])
    seg = st.one_of(plain, st.sampled_from(["..", ".", "..", "..", "."]))
    text = st.text(alphabet="ab/.?=&;:@", max_size=5)
    frag = st.one_of(st.none(), st.none(), text)
    scheme = draw(st.sampled_from(["http", "https", "http", "ftp", "x-y", "file"]))
    bsegs = draw(st.lists(st.one_of(plain, plain, seg), max_size=4))
    bpath = "".join("/" + s for s in bsegs) + draw(st.sampled_from(["", "", "/"]))
    host = draw(st.sampled_from(["a", "h.x", "u:p@h:80", ""]))
    base = [scheme, host, bpath, draw(st.one_of(st.none(), text)), None]
    kind = draw(st.sampled_from(["relative"] * 5 + ["absolute"] * 3 + ["empty", "authority", "scheme"]))
    ref = [None, None, "", draw(st.one_of(st.none(), st.none(), text)), draw(frag)]
    if kind in ("relative", "absolute"):
        segs = draw(st.lists(seg, min_size=1, max_size=6))
        ref[2] = ("/" if kind == "absolute" else "") + "/".join(segs) + draw(st.sampled_from(["", "", "/"]))
    elif kind == "authority":
        ref[1] = draw(st.sampled_from(["g", "u@g:1"]))
        ref[2] = "".join("/" + s for s in draw(st.lists(plain, max_size=3)))
    elif kind == "scheme":
        ref[0] = draw(st.sampled_from(["mailto", "g", "ldap"]))
        ref[1] = draw(st.sampled_from([None, "k"]))
        ref[2] = "".join("/" + s for s in draw(st.lists(plain, max_size=3)))
    return dict(base=base, ref=ref)


CHECKS = [
    Check("split", lambda t: split_cases(), split_run, 8000, 200000,
          rule="at least three of the five components are present and not empty"),
    Check("join", lambda t: join_cases(), join_run, 12000, 300000,
          rule="the reference has a path that is absolute or has dot segments"),
    Check("rfc", lambda t: st.sampled_from(range(len(RFC))), rfc_run, 240, 240,
          rule="every example of the RFC"),
]
