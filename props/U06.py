import posixpath

from hypothesis import strategies as st

from vh import gen
from vh.core import Check, need, same

from abl.vpath.base import URI

BS = "\\"


def run(case, ctx):
    drive, comps, names = case["drive"], case["comps"], case["names"]
    text = drive + ":" + BS + BS.join(comps)
    want_uni = "/" + drive + "/" + "/".join(comps)
    forms = {"backslashes": URI(text, sep=BS), "file:// and backslashes": URI("file://" + text, sep=BS),
             "file:// and slashes": URI("file://" + want_uni, sep=BS),
             "slashes": URI(drive + ":/" + "/".join(comps), sep=BS),
             "universal": URI(want_uni, sep=BS)}
    u = forms["backslashes"]
    for what, v in forms.items():
        same(v.path, text, "path of %r written with %s", text, what)
        same(str(v), text, "text of %r written with %s", text, what)
        same(v.unipath, want_uni, "universal path of %r written with %s", text, what)
        need(v == u and u == v, "%r written with %s is not equal", text, what)
        same(v.scheme, "file", "scheme of %r", text)
        need(v.is_absolute, "%r is not absolute", text)
    need(URI(u.path, sep=BS) == u, "path of %r does not lead back to it", text)
    need(URI(u) == u and URI(u).path == text, "copy of %r", text)
    # joining
    one = u
    for n in names:
        one = one / n
    joined = BS.join([text.rstrip(BS)] + names)
    for what, v in (("one by one", one), ("all at once", u.join(*names)),
                    ("with backslashes", u / BS.join(names)), ("with slashes", u / "/".join(names))):
        same(v.path, joined, "%r joined with %r %s", text, names, what)
        same(v.unipath, want_uni.rstrip("/") + "/" + "/".join(names), "universal path of it")
        same(v.sep, BS, "separator after joining")
        need(v == one, "%r joined with %r %s", text, names, what)
    # and back
    v = one
    allc = [c for c in comps if c] + names
    for k in range(len(allc), 0, -1):
        first, tail = v.split()
        same(tail, allc[k - 1], "basename of %r", v.path)
        same(v.last(), allc[k - 1], "last of %r", v.path)
        same(v.basename(), allc[k - 1], "basename of %r", v.path)
        same(tuple(v.splitext()), posixpath.splitext(allc[k - 1]), "splitext of %r", v.path)
        same(first.path, drive + ":" + BS + BS.join(allc[:k - 1]), "directory of %r", v.path)
        same(first.sep, BS, "separator of a directory")
        need(first == v.dirname(), "dirname of %r", v.path)
        v = first
    need((one + ".bak").path == joined + ".bak", "suffix of %r", joined)
    same((one + ".bak").sep, BS, "separator after adding a suffix")
    if len(comps) > 1 or not all(map(gen.is_plain, comps + names)):
        ctx.nontrivial()


def cases(tier):
    n = gen.names(control=True)
    return st.fixed_dictionaries(dict(
        drive=st.sampled_from("CDXcz"),
        comps=st.lists(n, min_size=0, max_size=3).map(lambda c: c or [""]),
        names=st.lists(n, min_size=1, max_size=3)))


def run_rel(case, ctx):
    """Paths without a drive; rooted ones start with a backslash."""
    rooted, ups, comps = case["rooted"], case["ups"], case["comps"]
    all_ = ups + comps
    text = (BS if rooted else "") + BS.join(all_)
    u = URI(text, sep=BS)
    if rooted:
        same(u.path, text, "path of %r", text)
        same(u.unipath, "/" + "/".join(all_), "universal path of %r", text)
    else:
        need(u.path in (text, "." + BS + text), "path of %r is %r", text, u.path)
        need(u.unipath in ("./" + "/".join(all_), "/".join(all_) if ups else None),
             "universal path of %r is %r", text, u.unipath)
    same(str(u), u.path, "text of %r", text)
    same(u.scheme, "file", "scheme of %r", text)
    need(u == URI(text.replace(BS, "/"), sep=BS), "%r written with slashes", text)
    need(u == URI("file://" + text, sep=BS), "%r written with file://", text)
    need(u == URI(u.path, sep=BS), "path of %r does not lead back to it", text)
    need(u == URI(u) and URI(u).path == u.path and URI(u).sep == BS, "copy of %r", text)
    same(bool(u.is_absolute), rooted, "is_absolute of %r", text)
    same(u.last(), all_[-1], "last of %r", text)
    same(u.basename(), all_[-1], "basename of %r", text)
    same(u.sep, BS, "separator of %r", text)
    if len(all_) > 1:
        need(u.dirname() == URI((BS if rooted else "") + BS.join(all_[:-1]), sep=BS), "dirname of %r", text)
        head = URI((BS if rooted else "") + all_[0], sep=BS)
        need(u == head.join(*all_[1:]), "join to %r", text)
        need(u == head / BS.join(all_[1:]), "join with backslashes to %r", text)
        ctx.nontrivial()


def rel_cases(tier):
    n = gen.names(exclude=":", control=True)
    return st.booleans().flatmap(lambda rooted: st.fixed_dictionaries(dict(
        rooted=st.just(rooted),
        ups=st.just([]) if rooted else st.lists(st.just(".."), max_size=2),
        # a rooted path with a first name of one letter reads as a drive
        comps=st.lists(n, min_size=1, max_size=4).filter(lambda c: not rooted or len(c[0]) > 1))))


CHECKS = [
    Check("drive", cases, run, 7000, 150000,
          rule="more than one component or a name with an unusual character"),
    Check("relative", rel_cases, run_rel, 2500, 50000, rule="more than one component"),
]
