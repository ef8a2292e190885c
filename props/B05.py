from vh import large, multi
from vh.core import Check


def run(case, ctx):
    m = multi.run(case, ctx)
    links = sum(1 for mod in m.models for v in mod.snapshot().values() if v[0] == "l")
    if links and m.done:
        ctx.nontrivial()
    ctx.label("links %d" % min(5, links))


CHECKS = [
    Check("within", lambda t: multi.transfers([["local"], ["memory"]], links=2, big=False), run,
          2400, 80000, rule="a copy was done and there are links at the end"),
    Check("between", lambda t: multi.transfers(
        [["local", "memory"], ["memory", "local"], ["memory", "memory2"]], links=2, big=False,
        same=True), run, 2400, 80000, rule="a copy was done and there are links at the end"),
    Check("large", lambda t: large.transfers(
        [["local"], ["memory"], ["local", "memory"], ["memory", "local"], ["memory", "memory2"]], "copy", True),
          large.on(run), 120, 4000, rule="a copy was done and there are links at the end"),
]
