from vh import hardlinks, large, multi
from vh.core import Check


def run(case, ctx):
    m = multi.run(case, ctx)
    if m.gained >= 2:
        ctx.nontrivial()


CHECKS = [
    Check("within", lambda t: multi.transfers([["local"], ["memory"]]), run, 2000, 60000,
          rule="copies that add or change at least two entries"),
    Check("between", lambda t: multi.transfers(
        [["local", "memory"], ["memory", "local"], ["memory", "memory2"]]), run, 2000, 60000,
          rule="copies that add or change at least two entries"),
    Check("large", lambda t: large.transfers(
        [["local"], ["memory"], ["local", "memory"], ["memory", "local"], ["memory", "memory2"]], "copy"),
        large.on(run), 150, 4000, rule="copies that add or change at least two entries"),
    Check("hardlinks", hardlinks.cases(["copy", "tree"]), hardlinks.run, 1500, 40000,
          rule="a copy between two names of one file was asked for"),
]
