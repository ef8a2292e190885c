import os
import posixpath

from hypothesis import strategies as st

from vh import gen, uris
from vh.core import Check, need, same

from abl.vpath.base import URI


def parent(path):
    """Directory of a path, by component (a path model, not os.path)."""
    head = path[:path.rfind("/")] if "/" in path else None
    if head is None:
        return path and "."
    return head if head else "/"


def base_uri(case):
    p = case["uri"]
    if isinstance(p, str):
        u = URI(p, **case["extras"])
        path = p if p.startswith("/") or p.startswith("./") or p == "." else "./" + p
        return u, path, (p.startswith("/") or p.startswith("./") or p == ".")
    return URI(uris.text(p), **case["extras"]), p["path"], True


def run(case, ctx):
    names = case["names"]
    u, path, exact = base_uri(case)
    if not exact:
        path = u.path
    same(u.path, path, "path of the base")
    facts = uris.facts(u)
    want = path.rstrip("/") + "/" + "/".join(names)

    one = u
    for n in names:
        one = one / n
    forms = {"join(*names)": u.join(*names), "'/'.join(names)": u / "/".join(names)}
    if len(names) > 1:
        k = case["cut"] % (len(names) - 1) + 1
        forms["join in two steps"] = u.join(*names[:k]).join(*names[k:])
        forms["mixed"] = u.join("/".join(names[:k]), "/".join(names[k:]))
        forms["inner slashes"] = u.join(*([n + "/" for n in names[:-1]] + [names[-1]]))
    aug = u
    for n in names:
        aug /= n
    forms["/="] = aug
    same(one.path, want, "path of %r joined with %r", str(u), names)
    for what, v in forms.items():
        need(v == one and one == v, "%s is %r, one at a time is %r", what, str(v), str(one))
        same(v.path, want, "path of %s" % what)
        same(uris.facts(v), facts, "other parts of %s" % what)
    same(u.path, path, "path of the base after joining")

    # going back
    v = one
    expected = want
    for k in range(len(names), 0, -1):
        first, tail = v.split()
        same(tail, names[k - 1], "basename of %r", str(v))
        same(v.basename(), names[k - 1], "basename of %r", str(v))
        same(v.last(), names[k - 1], "last of %r", str(v))
        same(tuple(v.splitext()), os.path.splitext(names[k - 1]), "splitext of %r", str(v))
        expected = parent(expected)
        same(first.path, expected, "path of the directory of %r", str(v))
        for d in (v.dirname(), v.directory()):
            need(d == first, "directory of %r: %r and %r", str(v), str(d), str(first))
        same(uris.facts(first), facts, "other parts of the directory of %r" % str(v))
        v = first
    back = path.rstrip("/") or ("/" if want.startswith("/") else path)
    same(v.path, back, "path after going back from %r", str(one))
    if path == back:
        need(v == u and u == v, "going back from %r gives %r, not %r", str(one), str(v), str(u))

    # n levels at once, up to and beyond the root
    step = one
    depth = want.count("/") + 3
    for n in range(1, depth):
        step = step.directory()
        same(one.directory(n).path, step.path, "directory(%d) of %r", n, str(one))
        need(one.dirname(level=n) == step, "dirname(level=%d) of %r", n, str(one))
        same(uris.facts(step), facts, "other parts %d levels above" % n)
    if want.startswith("/"):
        same(step.path, "/", "the root above %r", str(one))
        same(step.directory().path, "/", "the directory of the root above %r", str(one))
        same(step.last(), "", "last of the root above %r", str(one))
        same(step.basename(), "", "basename of the root above %r", str(one))
    else:
        same(step.path, ".", "the top above %r", str(one))
    # a trailing slash
    s = u.join(*(names + [""]))
    same(s.path, want + "/", "path with a trailing slash")
    same(s.last(), names[-1], "last of a path with a trailing slash")
    same(s.basename(), "", "basename of a path with a trailing slash")
    need((s / "z") == (one / "z"), "joining below %r and %r differs", str(s), str(one))
    ctx.label(facts["scheme"], *[k for k in ("connector", "query", "host") if facts[k]])
    if len(names) > 1 or not all(map(gen.is_plain, names)) or facts["query"] or facts["connector"]:
        ctx.nontrivial()


def run_windows(case, ctx):
    """The same with the separator of another platform."""
    names = case["names"]
    bs = "\\"
    text = case["drive"] + ":" + bs + bs.join(case["comps"])
    u = URI(text, sep=bs)
    forms = [u.join(*names), u / "/".join(names), u / bs.join(names)]
    if len(names) > 1:
        forms += [u.join(names[0], bs.join(names[1:])), u.join(bs.join(names[:-1]), names[-1])]
    v = u
    for n in names:
        v = v / n
    want = text.rstrip(bs) + bs + bs.join(names)
    for f in forms:
        need(f == v, "joining %r to %r gives %r and %r", names, text, str(f), str(v))
        same(f.path, want, "%r joined with %r", text, names)
    for n in reversed(names):
        same(v.basename(), n, "basename of %r", v.path)
        same(v.last(), n, "last of %r", v.path)
        same(tuple(v.splitext()), posixpath.splitext(n), "splitext of %r", v.path)
        first, tail = v.split()
        same(tail, n, "basename of %r", v.path)
        need(first == v.dirname() == v.directory(1), "directory of %r", v.path)
        v = first
    same(v.path, text.rstrip(bs) if case["comps"] else text, "path after going back")
    for k in range(1, len(names) + 1):
        need(forms[0].directory(k) == (u.join(*names[:-k]) if names[:-k] else v),
             "directory(%d) of %r", k, forms[0].path)
    ctx.nontrivial()


LOCAL = st.one_of(
    st.sampled_from(["/", ".", "./", "./a", "a", "..", "../..", "/a", "/a/", ".x", "a/", "/.h"]),
    st.tuples(st.sampled_from(["/", "./", "../", ""]),
              st.lists(gen.names(exclude=":"), min_size=1, max_size=3)).map(
                  lambda t: t[0] + "/".join(t[1])))


@st.composite
def cases(draw):
    local = draw(st.sampled_from([True, False, False]))
    base = draw(LOCAL) if local else draw(uris.parts(control=True))
    http = not local and base["scheme"].startswith("http")
    return dict(uri=base,
                names=draw(st.lists(gen.names(exclude="#" if http else "", control=True),
                                    min_size=1, max_size=4)),
                cut=draw(st.integers(0, 5)),
                extras=draw(st.sampled_from([{}, {}, {"opt": "1"}])))


CHECKS = [
    Check("join", lambda t: cases(), run, 10000, 250000,
          rule="more than one name, an unusual name, a query or an archive"),
    Check("windows", lambda t: st.fixed_dictionaries(dict(
        drive=st.sampled_from("CDXcz"), comps=st.lists(gen.names(control=True), max_size=3),
        names=st.lists(gen.names(control=True), min_size=1, max_size=4))), run_windows, 3000, 80000,
          rule="every case"),
]
