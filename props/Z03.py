"""Z03: copying out of and into archives preserves every member."""
from hypothesis import strategies as st

from vh import hist, large, multi, reffs, trees, worlds, zips
from vh.core import Check

KINDS = ["local", "memory", "zip", "zip2"]


def make(case, ctx):
    d = ctx.dir()
    ctx.defer(worlds.clean_registry)
    out = []
    for k in case["kinds"]:
        if k == "local":
            out.append(worlds.LocalWorld(d, case["style"]))
        elif k == "memory":
            out.append(worlds.MemWorld(case["membase"], key="tree"))
        else:
            a = case["archives"][k == "zip2"]
            storage = a["storage"]
            if storage in ("rel", "bare"):
                # the working directory belongs to the local tree
                storage = "abs"
            out.append(zips.ZipWorld(d, storage, ("2" if k == "zip2" else "1") + a["name"]))
    return out


def run(case, ctx):
    m = multi.Multi(case["names"], make(case, ctx), ctx)
    for i, w in enumerate(m.worlds):
        if isinstance(w, zips.ZipWorld):
            m.models[i] = z = zips.ZipRef()
            a = case["archives"][case["kinds"][i] == "zip2"]
            if a["spec"] is None and not case["forest"][i]:
                continue
            trees.plant(z, case["forest"][i], case["names"])
            if a["spec"] is None:
                m.models[i] = z = zips.implied(z)
                for p, v in sorted(z.snapshot().items()):
                    if v[0] == "f":
                        with w.uri(p).open("wb") as f:
                            f.write(v[1])
            else:
                w.put_raw(zips.foreign(z, a["spec"]))
                if not a["spec"]["dirs"]:
                    m.models[i] = zips.implied(z)
        else:
            trees.plant(m.models[i], case["forest"][i], case["names"])
            w.build(m.models[i])
    gained = 0
    for op in case["ops"]:
        n = len(m.worlds)
        i, j = op[1] % n, op[3] % n
        if op[0] == "drop":
            if isinstance(m.worlds[i], zips.ZipWorld):
                m.worlds[i].drop()
            continue
        wi, wj = m.worlds[i], m.worlds[j]
        into = isinstance(wj, zips.ZipWorld)
        if i == j or not (into or isinstance(wi, zips.ZipWorld)):
            continue
        s = hist.concrete(op[2], m.models[i], case["names"])
        if into:
            # files only; what would be both file and directory is left out
            t = hist.concrete(op[4], m.models[j], case["names"])
            if not s or not m.models[i].isfile(s) or op[6] is True:
                continue
            z = m.models[j]
            if z.isdir(t):
                t = t + (s[-1],)
            if not z.fits(t):
                continue
        got = m.transfer(op)
        if got is not None:
            gained += got
            if into:
                wj.check_members(m.models[j], "after %s", op)
        m.check("after %s" % op)
    if m.done and gained:
        ctx.nontrivial()


def cases(tier):
    src = st.tuples(st.sampled_from(["d", "d", "a", "f"]), st.integers(0, 11),
                    st.sampled_from([[]] * 9 + [[0]])).map(list)
    dst = st.one_of(hist.spec(["n"], 0), hist.spec(["n"], 1), hist.spec(["d"], 1),
                    hist.spec(["d", "d", "a", "f"], 2))
    w = st.integers(0, 3)
    copy = st.tuples(st.just("copy"), w, src, w, dst, hist.SPELL, st.sampled_from([2, 2, 2, 2, True, False]),
                     st.booleans(), st.lists(st.integers(0, 3), max_size=2), st.integers(0, 4)).map(list)
    drop = st.tuples(st.just("drop"), w, st.just(0), w).map(list)
    arch = st.fixed_dictionaries(dict(name=zips.archives(), storage=st.sampled_from(zips.STORAGES),
                                      spec=st.one_of(st.none(), zips.SPECS)))
    tree = trees.trees(3, 4, 0, hist.contents(), min_size=0, dirs=3)
    kinds = st.one_of(
        st.sampled_from([["zip", "local"], ["zip", "memory"], ["zip", "zip2"]]),
        st.just(KINDS))
    return kinds.flatmap(lambda ks: st.fixed_dictionaries(dict(
        kinds=st.just(ks), names=zips.pools(), archives=st.tuples(arch, arch).map(list),
        forest=st.tuples(*[tree for _ in ks]).map(list),
        ops=st.lists(st.one_of(*[copy] * 6, drop), min_size=2, max_size=6),
        style=st.sampled_from(hist.LOCAL_STYLES), membase=st.sampled_from(hist.MEM_BASES))))


def large_cases(tier):
    w = st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just("copy"), st.just(0), st.sampled_from([large.TOP, large.TOP, ["d", 0, []]]), st.just(1),
                  st.sampled_from(large.TO), hist.SPELL, st.just(2), st.booleans(),
                  st.lists(st.integers(large.K, large.K + 90), max_size=1), st.integers(0, 4)).map(list),
        st.tuples(st.just("copy"), w, large.FILE, w, st.sampled_from(large.TO), hist.SPELL, st.just(2), st.booleans(),
                  st.just([]), st.just(0)).map(list),
        st.tuples(st.just("drop"), w, st.just(0), w).map(list))
    arch = st.fixed_dictionaries(dict(name=zips.archives(), storage=st.sampled_from(zips.STORAGES), spec=zips.SPECS))
    return st.sampled_from([["zip", "local"], ["zip", "memory"]]).flatmap(lambda ks: st.fixed_dictionaries(dict(
        large.WHERE, kinds=st.just(ks), archives=st.tuples(arch, arch).map(list),
        forest=st.tuples(large.trees(), st.one_of(st.just([[2, ["d", []]]]), large.trees())).map(list),
        ops=st.lists(op, min_size=1, max_size=3))))


CHECKS = [
    Check("copies", cases, run, 3000, 80000, rule="a copy out of or into an archive adds something"),
    Check("large", large_cases, large.on(run), 100, 3000, rule="a copy out of or into an archive adds something"),
]
