from vh import multi
from vh.core import Check


def run(case, ctx):
    m = multi.run(case, ctx)
    if m.crossed:
        ctx.nontrivial()


CHECKS = [
    Check("samepaths", lambda t: multi.transfers(
        [["local", "memory"], ["memory", "local"], ["memory", "memory2"]],
        (("copy", 2), ("move", 1)), links=2, big=False, same=True, max_ops=5, depth=2), run,
        3600, 100000, rule="a transfer from one backend to another one was done"),
]
