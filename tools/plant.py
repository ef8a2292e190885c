#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: turn planted-bug descriptions into seeded/<id>/ after confirming them.

BUGS.py defines BUGS, a list of dict(id, property, edits=[(file, old, new)], needs, what, demo).
A bug is kept when it changes original lines, builds, passes the stable tests, and its demonstration
passes without and fails with it.  Then the property's check is run against it.
"""
import json
import os
import runpy
import subprocess
import sys

REPO = "/repo"
BASE = "21c0a4a"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ALSO = os.environ.get("ALSO", "").split()

SH = """#!/bin/bash
# run with cwd /repo; everything happens in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
cd "$work" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo PYTHONWARNINGS=ignore timeout 200 /opt/venv/bin/python "$here/demo.py"
rc=$?
cd / && rm -rf "$work"
exit $rc
"""


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git", "-C", REPO, "checkout", "--", ".")
    sh("git", "-C", REPO, "clean", "-fdq")


def original_lines(path):
    out = sh("git", "-C", REPO, "blame", "-s", "HEAD", "--", path).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.lstrip("^").startswith(BASE)}


def run(bug, check_only=False):
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip(), "/repo not clean"
    d = os.path.join(SEEDED, bug["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

    def fail(msg):
        undo()
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)
        print("%-12s NOT KEPT: %s" % (bug["id"], msg))
        return False

    r = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
    if r.returncode != 0:
        return fail("demo fails on the unchanged tree: " + r.stdout[-600:])
    orig = False
    for f, old, new in bug["edits"]:
        p = os.path.join(REPO, "abl/vpath/base", f)
        s = open(p).read()
        if s.count(old) != 1:
            return fail("%d places for %r in %s" % (s.count(old), old, f))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", REPO, "diff").stdout
    # original lines among the removed ones
    cur, ln = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = original_lines(l[6:])
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and cur is not None:
            orig = orig or ln in cur
            ln += 1
        elif not l.startswith("+"):
            ln += 1
    if not orig:
        return fail("no original line is changed")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode:
        return fail("does not build " + r.stdout[-500:])
    r = sh("bash", "/opt/vp/test.sh", "/tmp/plant-out.json")
    if "222 passed" not in r.stdout or " failed" in r.stdout.replace(" 0 failed", ""):
        return fail("tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "passed" in l)[-600:])
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
    if r.returncode == 0:
        return fail("demo does not notice it")
    res = []
    for pid in [bug["property"]] + [x for x in ALSO if x != bug["property"]]:
        c = sh(sys.executable, os.path.join(HERE, "check.py"), pid)
        res.append("%s:%s" % (pid, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR")))
        if c.returncode == 2:
            print(c.stdout[-1500:])
    undo()
    print("%-12s kept   %s   (demo: %s)" % (bug["id"], " ".join(res), r.stdout.strip().splitlines()[-1][:90] if r.stdout.strip() else ""))
    sys.stdout.flush()
    return True


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    try:
        for b in bugs:
            if len(sys.argv) == 2 or b["id"] in sys.argv[2:]:
                run(b)
    finally:
        undo()
