from hypothesis import strategies as st

from vh import gen, uris
from vh.core import Check, need, same

from abl.vpath.base import URI
from abl.vpath.base import fs as vfs


class OwnUri(vfs.RevisionedUri):
    pass


vfs.SCHEME_REGISTRY.update({"svn+ssh": OwnUri, "x-y": vfs.RevisionedUri, "h2+ssh": OwnUri})
KIND = {"svn+ssh": OwnUri, "x-y": vfs.RevisionedUri, "s3": vfs.BaseUri, "v1.x": vfs.BaseUri,
        "h2+ssh": OwnUri, "probe": vfs.BaseUri, "http": vfs.BaseUri, "https": vfs.BaseUri, "S3": vfs.BaseUri}


def check_same(u, v, what):
    need(v == u and u == v and not (u != v), "%s: not equal (%r, %r)", what, str(u), str(v))
    same(v.path, u.path, what + ": path")
    same(uris.facts(v), uris.facts(u), what)
    same(v.fragment or None, u.fragment or None, what + ": fragment")
    same(str(v), str(u), what + ": text")
    same(v.scheme, u.scheme, what + ": scheme")
    need(type(v) is type(u), "%s: is a %s, not a %s", what, type(v).__name__, type(u).__name__)


def run_round(case, ctx):
    p, sets, joins = case["uri"], case["set"], case["join"]
    t = uris.text(p)
    u = URI(t)
    same(uris.facts(u), uris.wanted(p), "parts of URI(%r)", t)
    same(u.path, p["path"], "path of URI(%r)", t)
    if p["scheme"] in KIND:
        same(type(u), KIND[p["scheme"]], "kind of URI(%r)", t)
    same(u.fragment or None, p["fragment"], "fragment of URI(%r)", t)
    check_same(u, URI(str(u)), "URI(str(u)) for %r" % t)
    check_same(u, URI(u), "URI(u) for %r" % t)
    check_same(u, URI(URI(u)), "URI(URI(u)) for %r" % t)
    want = dict(map(tuple, p["query"]))
    path = p["path"]
    order = case["order"]
    if order == 0:
        for k, v in sets:
            u.query[k] = v
            want[k] = v
    for n in joins:
        u = u / n
        path = path.rstrip("/") + "/" + n
    if order == 1:
        for k, v in sets:
            u.query[k] = v
            want[k] = v
    same(dict(u.query), want, "query after join and set for %r", t)
    same(u.path, path, "path after join for %r", t)
    if p["scheme"] in KIND:
        same(type(u), KIND[p["scheme"]], "kind of %r after join", t)
    if joins:
        p = dict(p, fragment=None)
    for what, w in (("text", URI(str(u))), ("URI", URI(u))):
        need(w == u, "%s of %r after join and set parses to %r", what, str(u), str(w))
        same(dict(w.query), want, "query from the %s after join and set for %r", what, t)
        same(w.path, path, "path from the %s after join and set for %r", what, t)
        same(uris.facts(w), uris.facts(u), "parts from the %s after join and set" % what)
    if want or p["user"] or p["connector"] or p["port"] or not gen.is_plain(path.replace("/", "")):
        ctx.nontrivial()


def cases(tier):
    q = gen.texts().filter(lambda k: k and k not in ("username", "password"))
    return uris.parts(fragments=True, control=True).flatmap(lambda p: st.fixed_dictionaries(dict(
        uri=st.just(p),
        set=st.lists(st.tuples(q, gen.texts()).map(list), max_size=2),
        join=st.lists(gen.names(exclude="#" if p["scheme"].startswith("http") else "",
                                control=True), max_size=2),
        order=st.integers(0, 1))))


def run_local(case, ctx):
    """Local URIs: the text form is the path; the query is kept by the URI form only."""
    path, extra = case["path"], case["set"]
    u = URI(path)
    check_same(u, URI(str(u)), "URI(str(u)) for %r" % path)
    for k, v in extra:
        u.query[k] = v
    w = URI(u)
    check_same(u, w, "URI(u) for %r with %r" % (path, extra))
    w2 = (u / "x").dirname()
    same(dict(w2.query), dict(u.query), "query after join and dirname of %r", path)
    if extra:
        # the copy is independent
        w.query["other"] = "1"
        need("other" not in u.query, "the query is shared between an URI and its copy")
        ctx.nontrivial()


def local_cases(tier):
    q = gen.texts().filter(lambda k: k and k not in ("username", "password"))
    return st.fixed_dictionaries(dict(
        path=st.tuples(st.sampled_from(["/", "./", "../"]),
                       st.lists(gen.names(), min_size=1, max_size=3)).map(
                           lambda t: t[0] + "/".join(t[1])),
        set=st.lists(st.tuples(q, gen.texts()).map(list), max_size=2)))


CHECKS = [
    Check("round", cases, run_round, 9000, 200000,
          rule="URI with a query, credentials, a port, an archive or an unusual path character"),
    Check("local", local_cases, run_local, 3000, 60000, rule="a query was set on the local URI"),
]
