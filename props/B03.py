from hypothesis import strategies as st

from vh import hist
from vh.core import Check

WEIGHTS = [("mkdir", 3), ("makedirs", 2), ("write", 3), ("append", 1), ("update", 1), ("remove", 3),
           ("list", 2), ("read", 2), ("readlink", 1), ("md5", 1), ("symlink", 2), ("copy", 4),
           ("move", 4)]


def run(case, ctx):
    r = hist.run_history(case, ctx)
    ctx.label("failures %s" % min(6, r.failed), case["style"])
    if r.failed >= 1 and sum(r.done.values()) > r.failed:
        ctx.nontrivial()


CHECKS = [
    Check("histories", lambda t: hist.histories(
        WEIGHTS, sels=["d", "a", "f", "l"], max_size=30 if t == "thorough" else 18, links=1), run, 2400, 100000,
        rule="at least one operation failed as expected and another one was done"),
]
