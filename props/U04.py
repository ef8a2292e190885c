from hypothesis import strategies as st

from vh import gen, probe, uris
from vh.core import Check, need, same

from abl.vpath.base import URI

SCHEMES = ["probe", "svn+ssh", "x-y", "http", "https", "s3", "v1.x"]
for s in SCHEMES + ["other", "svn", "pro"]:
    probe.REG.register(s, probe.factory(s))


def attrs(u):
    return dict(uris.facts(u), sep=u.sep)


def build(p, kw, creds):
    """The URI of the parts p with its credentials at one of three places."""
    kw = dict(kw)
    q = dict(p)
    if creds != "address" and (p["user"] is not None or p["password"] is not None):
        q["user"] = q["password"] = None
        names = [(n, p[f]) for n, f in (("username", "user"), ("password", "password")) if p[f] is not None]
        if creds == "keywords":
            kw.update(names)
        else:
            q["query"] = p["query"] + [list(n) for n in names]
    return URI(uris.text(q), **kw), uris.text(q)


def derive(u, op, arg):
    """(derived URI, expected path)"""
    path = u.path
    if op == "join":
        return u.join(arg), path.rstrip("/") + "/" + arg
    if op == "/":
        return u / arg, path.rstrip("/") + "/" + arg
    if op == "join2":
        return u.join(arg, "z"), path.rstrip("/") + "/" + arg + "/z"
    if op == "+":
        if not path or path == "/":
            return None, None
        return u + arg, path + arg
    if op == "copy":
        return URI(u), path
    head = path[:path.rindex("/")] if "/" in path else ""
    head = head or ("/" if path.startswith("/") else "")
    if not path:
        return None, None
    if op == "split":
        return u.split()[0], head
    if op == "dirname":
        return u.dirname(), head
    if op == "directory2":
        h2 = head[:head.rindex("/")] or "/"
        return u.directory(2), h2
    raise AssertionError(op)


def run(case, ctx):
    probe.reset()
    ctx.defer(lambda: probe.REG.cleanup(force=True))
    p, kw = case["uri"], dict(map(tuple, case["kw"]))
    u, text = build(p, kw, case["creds"])
    first = u.get_connection()
    same(len(probe.LOG.created), 1, "backends created for %r", text)
    label, args, kwargs, inst = probe.LOG.created[0]
    need(inst is first, "get_connection of %r gives something else than the backend", text)
    same(label, p["scheme"], "factory used for %r", text)
    got, extras = probe.norm(args, kwargs)
    same(got, dict(hostname=p["host"], port=p["port"], username=p["user"], password=p["password"],
                   vpath_connector=p["connector"]), "arguments of the backend of %r with %r", text, kw)
    want = dict(kw)
    if p["scheme"] not in ("http", "https"):
        want.update(dict(map(tuple, p["query"])))
    same(extras, want, "options of the backend of %r with %r", text, kw)
    # a backend finds them as its attributes
    same({k: getattr(inst, k) or None for k in got}, got, "attributes of the backend of %r with %r", text, kw)
    same(dict(inst.extras), want, "attribute extras of the backend of %r with %r", text, kw)
    # the same credentials written in the address
    if case["creds"] == "keywords" and p["user"] is not None:
        v, vt = build(p, kw, "address")
        need(v.get_connection() is first, "%r and %r with keywords reach different backends", vt, text)
    have = attrs(u)
    base = u
    for op, arg in case["chain"]:
        v, path = derive(u, op, arg)
        if v is None:
            continue
        same(v.path, path, "path of %r after %s %r", str(u), op, arg)
        same(attrs(v), have, "%r after %s %r" % (str(u), op, arg))
        need(v.get_connection() is first, "%r after %s %r reaches another backend", str(u), op, arg)
        probe.LOG.calls[:] = []
        v.exists()
        need(probe.LOG.calls == [(first, "exists")] and v.connection is first,
             "%r after %s %r operates on another backend", str(u), op, arg)
        u = v
        ctx.label(op)
    same(len(probe.LOG.created), 1, "backends created for %r and what is derived from it", text)
    # changing the scheme of a copy
    w = URI(u)
    if case["look"]:
        # whatever was asked before
        same(w.scheme, p["scheme"], "scheme of %r", str(u))
        w.exists()
    other = case["other"]
    if other == p["scheme"] or (other in ("http", "https") and "#" in u.path):
        other = "other"
    w.scheme = other
    same(attrs(w), dict(have, scheme=other), "%r with the scheme %s" % (str(u), other))
    same(attrs(u), have, "%r after changing the scheme of its copy" % str(u))
    need(w.get_connection() is not first, "another scheme reaches the same backend")
    label, args, kwargs, inst = probe.LOG.created[-1]
    same(label, other, "factory used for another scheme")
    same(probe.norm(args, kwargs)[0], got, "arguments of the backend of another scheme")
    if p["scheme"] not in ("http", "https") and other not in ("http", "https"):
        same(probe.norm(args, kwargs)[1], extras, "options of the backend of another scheme")
    need((w / "x").scheme == other and (w / "x").get_connection() is inst,
         "a path joined to %r does not keep the changed scheme", str(w))
    # options of a copy are its own
    w = URI(u)
    w.extras["zz"] = "1"
    w.query["zy"] = "2"
    same(attrs(u), have, "%r after its copy got another query value" % str(u))
    need(u.get_connection() is first, "%r after changing the options of its copy reaches another backend", str(u))
    need(w.get_connection() is not first, "a changed option of a copy of %r makes no difference", str(u))
    same(attrs(base), have, "the first URI afterwards")
    if (p["user"] or p["port"] or kw or p["query"] or p["connector"]) and case["chain"]:
        ctx.nontrivial()
    ctx.label("creds in " + case["creds"] if p["user"] else "no creds")


@st.composite
def cases(draw):
    p = draw(uris.parts(schemes=SCHEMES, trailing=False))
    keys = st.text(alphabet="abck_", min_size=1, max_size=3)
    p["query"] = [kv for kv in p["query"] if kv[0] not in probe.RESERVED]
    if draw(st.booleans()):
        p["query"] = []
    taken = {k for k, _ in p["query"]} | probe.RESERVED
    kw = draw(st.lists(st.tuples(keys.filter(lambda k: k not in taken),
                                 st.one_of(gen.texts(), st.integers(2, 99), st.none())).map(list),
                       max_size=2, unique_by=lambda kv: kv[0]))
    name = gen.names(exclude="#" if p["scheme"].startswith("http") else "")
    chain = draw(st.lists(st.tuples(
        st.sampled_from(["join", "/", "join2", "+", "copy", "split", "dirname", "directory2"]),
        name).map(list), min_size=1, max_size=6))
    creds = draw(st.sampled_from(["address", "keywords", "query"]
                                 if not p["scheme"].startswith("http") else ["address", "keywords"]))
    if creds != "address" and p["user"] is None:
        p["password"] = draw(st.sampled_from([None, None, "p", "a b"]))
    return dict(uri=p, kw=kw, chain=chain, creds=creds,
                other=draw(st.sampled_from(SCHEMES + ["other", "svn", "pro", "http", "https"])),
                look=draw(st.booleans()))


CHECKS = [
    Check("chains", lambda t: cases(), run, 6000, 150000,
          rule="something besides scheme, host and path is given and derivations follow"),
]
