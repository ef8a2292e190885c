from vh import hardlinks, large, multi
from vh.core import Check

W = (("move", 1),)


def run(case, ctx):
    m = multi.run(case, ctx)
    if m.done:
        ctx.nontrivial()
    if m.failed:
        ctx.label("failing moves")


CHECKS = [
    Check("within", lambda t: multi.transfers([["local"], ["memory"]], W, links=1, big=False), run,
          2400, 80000, rule="a move was done"),
    Check("between", lambda t: multi.transfers(
        [["local", "memory"], ["memory", "local"], ["memory", "memory2"]], W, links=1, big=False,
        same=True), run, 2000, 60000, rule="a move was done"),
    Check("disks", lambda t: multi.transfers(
        [["local", "disk"], ["disk", "local"]], W, links=1, big=False, relative=True), run, 1600, 40000,
        rule="a move was done"),
    Check("contents", lambda t: multi.transfers(
        [["local", "memory"], ["memory", "local"], ["memory"], ["local"]], W), run, 800, 20000,
        rule="a move was done"),
    Check("large", lambda t: large.transfers([["local"], ["memory"], ["local", "memory"], ["memory", "local"]],
                                             "move", True), large.on(run), 100, 4000, rule="a move was done"),
    Check("largedisks", lambda t: large.transfers([["local", "disk"]], "move"), large.on(run), 40, 2000,
          rule="a move was done"),
    Check("hardlinks", hardlinks.cases(["move"]), hardlinks.run, 1000, 30000,
          rule="a move between two names of one file was asked for"),
]
