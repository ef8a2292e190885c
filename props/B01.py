from hypothesis import strategies as st

from vh import hist, large
from vh.core import Check

WEIGHTS = [("mkdir", 3), ("makedirs", 2), ("write", 4), ("append", 2), ("update", 1), ("text", 2),
           ("remove", 3), ("query", 1), ("list", 2), ("read", 2), ("peek", 2), ("readtext", 1), ("walk", 1)]


def run(case, ctx):
    r = hist.run_history(case, ctx)
    changes = sum(r.done.get(k, 0) for k in ("mkdir", "makedirs", "write", "append", "update",
                                             "text", "remove"))
    if changes >= 3 and len(r.model.paths()) >= 1:
        ctx.nontrivial()
    ctx.label("entries %s" % min(8, len(r.model.paths())), case["style"])


CHECKS = [
    Check("histories", lambda t: hist.histories(
        WEIGHTS, sels=["d", "d", "d", "a", "f"], max_size=30 if t == "thorough" else 18,
        control=True), run, 2400, 100000,
        rule="at least three changing operations and a non-empty tree at the end"),
    Check("large", lambda t: large.histories(), large.on(run), 200, 6000,
          rule="at least three changing operations and a non-empty tree at the end"),
]
