"""Transfers within and between several backends, each with a model of its own."""
from hypothesis import strategies as st

from vh import hist, reffs, trees, worlds
from vh.core import need
from vh.reffs import Err, Unclear

KINDS = ["local", "memory", "memory2"]


def make(kinds, case, ctx):
    """Worlds of the given kinds; base 'same' gives equal path texts on all of them."""
    d = ctx.dir()
    ctx.defer(worlds.clean_registry)
    out = []
    for i, k in enumerate(kinds):
        base = case["membase"]
        if base == "same":
            base = d + "/t"
        if k == "local":
            out.append(worlds.LocalWorld(d, "abs" if case["membase"] == "same" else case["style"]))
        elif k == "disk":
            # on another device
            out.append(worlds.LocalWorld(ctx.dir2() or d, sub="t2"))
            out[-1].name = "other disk"
        elif k.startswith("plug"):
            from vh import plugin
            out.append(plugin.PluginWorld(k, base, "h%d" % i))
        elif k == "memory":
            out.append(worlds.MemWorld(base))
        else:
            out.append(worlds.MemWorld(base, key="two"))
            out[-1].name = "second memory"
    return out


class Multi(object):

    def __init__(self, names, wlist, ctx):
        self.names, self.worlds, self.ctx = names, wlist, ctx
        self.models = [reffs.RefFS() for _ in wlist]
        self.done = self.failed = self.crossed = 0

    def plant(self, forest, relative=False):
        for m, w, t in zip(self.models, self.worlds, forest):
            m.open = relative
            trees.plant(m, t, self.names, relative=relative)
            w.build(m)

    def check(self, what):
        for m, w in zip(self.models, self.worlds):
            worlds.check_tree(w, m, "%s", what)

    def below(self, name, i, s, d, follow):
        """Do the texts of the paths tell that something is copied to itself?"""
        m = self.models[i]
        if m.isdir(d):
            d = d + s[-1:]
        if m.islink(s) and not (name == "copy" and follow):
            return s == d
        return d[:len(s)] == s

    def transfer(self, op):
        try:
            return self._transfer(op)
        except Unclear:
            self.ctx.label("left out")

    def _transfer(self, op):
        name, i, ssp, j, dsp, spell = op[:6]
        n = len(self.worlds)
        i, j = i % n, j % n
        s = hist.concrete(ssp, self.models[i], self.names)
        d = hist.concrete(dsp, self.models[j], self.names)
        if not s and (name == "move" or i == j):
            s = hist.concrete(["a", ssp[1], []], self.models[i], self.names)
            if not s:
                return
        sps = hist.slash(self.models[i], s, spell)
        if not s:
            sps = spell
        spd = hist.slash(self.models[j], d, spell)
        ws, wd = self.worlds[i], self.worlds[j]
        saved = self.models
        trial = [m.clone() for m in saved]
        other = trial[j] if i != j else None
        if name == "copy":
            recursive, follow, ign = op[6:9]
            if recursive == 2:
                # as the source needs it
                recursive = self.models[i].isdir(s)
            ign = [self.names[k % len(self.names)] for k in ign]
            what = "copy %s:%s to %s:%s (recursive=%s, followlinks=%s, ignore=%s)" % (
                ws.name, s, wd.name, d, recursive, follow, ign)

            def on_model():
                trial[i].copy(s, d, recursive, ign, follow, other)

            def on_world():
                form = op[9] if len(op) > 9 else 0
                ig = (None if not ign and form % 2 else
                      [list, tuple, set, frozenset, iter][form % 5](ign))
                ws.uri(s, sps).copy(wd.uri(d, spd), recursive=recursive, ignore=ig,
                                    followlinks=follow)
        else:
            what = "move %s:%s to %s:%s" % (ws.name, s, wd.name, d)

            def on_model():
                trial[i].move(s, d, other)

            def on_world():
                ws.uri(s, sps).move(wd.uri(d, spd))
        before = self.models[j].snapshot()
        try:
            on_model()
        except Unclear:
            self.ctx.label("left out")
            return
        except Err as e:
            if i == j and ws.unsorted and (reffs.SAME in e.kinds) != self.below(name, i, s, d, len(op) < 8 or op[7]):
                # the generic operations look at the texts of the paths
                self.ctx.label("left out")
                return
            worlds.expect(e.kinds, on_world, what, ws)
            self.failed += 1
            self.ctx.label("fails " + "/".join(sorted(map(worlds.kind_text, e.kinds))))
            self.check("after the failing " + what)
            return
        if i == j and ws.unsorted and self.below(name, i, s, d, len(op) < 8 or op[7]):
            self.ctx.label("left out")
            return
        worlds.success(on_world, what, ws)
        self.models = trial
        self.check("after " + what)
        after = trial[j].snapshot()
        self.done += 1
        if i != j:
            self.crossed += 1
        ns, nd = getattr(ws, "short", ws.name), getattr(wd, "short", wd.name)
        self.ctx.label(name, "%s to %s" % (ns, nd) if i != j else "within " + ns)
        return len(set(after.items()) - set(before.items()))


def transfers(kinds, weights=(("copy", 1),), links=0, max_ops=5, sels=("d", "a", "f"),
              flags=(2, 2, 2, 2, 2, True, False), same=False, big=True, depth=3, relative=False):
    """kinds: list of lists of world kinds to choose from."""
    src = st.tuples(st.sampled_from(list(sels) + (["l"] if links else [])), st.integers(0, 11),
                    st.sampled_from([[]] * 9 + [[0]])).map(list)
    dst = st.one_of(hist.spec(["n"], 0), hist.spec(["n"], 1), hist.spec(["d"], 1),
                    hist.spec(["d", "d", "a", "f"] + (["l"] if links else []), 2))
    w = st.integers(0, 1)
    copy = st.tuples(st.just("copy"), w, src, w, dst, hist.SPELL, st.sampled_from(flags),
                     st.booleans() if links else st.sampled_from([True, True, False]),
                     st.lists(st.integers(0, 3), max_size=2), st.integers(0, 4)).map(list)
    move = st.tuples(st.just("move"), w, src, w, dst, hist.SPELL).map(list)
    ops = st.one_of([{"copy": copy, "move": move}[k] for k, n in weights for _ in range(n)])
    tree = trees.trees(depth, 4, links, hist.contents(big), min_size=2, dirs=3)
    return st.sampled_from(kinds).flatmap(lambda ks: st.fixed_dictionaries(dict(
        kinds=st.just(ks), relative=st.just(relative), names=hist.pools(2, 4),
        forest=st.tuples(*[tree for _ in ks]).map(list),
        ops=st.lists(ops, min_size=2, max_size=max_ops),
        style=st.sampled_from(hist.LOCAL_STYLES),
        membase=st.just("same") if same else st.sampled_from(hist.MEM_BASES))))


def run(case, ctx):
    m = Multi(case["names"], make(case["kinds"], case, ctx), ctx)
    m.plant(case["forest"], case.get("relative", False))
    m.check("before")
    m.gained = 0
    for op in case["ops"]:
        m.gained += m.transfer(op) or 0
    if not m.done:
        ctx.label("nothing done")
    return m
