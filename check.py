#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only SUBCHECK] [--scale F]

Decides property ID on /repo's working tree by generated-input search.
Exit 0: held on everything explored.  Exit 1: 'VIOLATION property=ID replay=PATH'.
Exit 2: error of the check.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NOBODY = 65534


def shard_env(scratch):
    env = {k: v for k, v in os.environ.items() if k.startswith("VERIF_")}
    env.update(PATH="/usr/local/bin:/usr/bin:/bin", HOME=scratch, TMPDIR=scratch,
               LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONWARNINGS="ignore", GIT_CONFIG_NOSYSTEM="1", GIT_OPTIONAL_LOCKS="0",
               PYTHONPATH="/repo")
    return env


# --------------------------------------------------------------------------
# shard process

def shard_main(args):
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0 or os.geteuid() == 0:
        print("cannot drop privileges", file=sys.stderr)
        os._exit(2)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.umask(0o022)
    sys.path.append(HYP)
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(1000)
    from vh import core
    scratch = args.scratch
    work = os.path.join(scratch, "w%d" % args.shard)
    os.mkdir(work)
    os.chdir(work)
    res = core.ShardResult()
    try:
        import abl.vpath.base
        if not abl.vpath.base.__file__.startswith("/repo/"):
            raise core.HarnessError("abl.vpath imported from %s" % abl.vpath.base.__file__)
        mod = importlib.import_module("props." + args.id)
        ctx = core.Ctx(work, args.tier)
        checks = [c for c in mod.CHECKS if args.only in (None, c.name)]
        by_name = {c.name: c for c in mod.CHECKS}
        if args.replay:
            rep = json.load(open(args.replay))
            c = by_name[rep["check"]]
            try:
                core.run_one(c, rep["case"], ctx, res)
            except core.Violation as v:
                res.violation = dict(check=c.name, case=rep["case"], message=str(v))
            except core.Hang:
                res.violation = dict(check=c.name, case=rep["case"], message="no answer")
        else:
            if args.shard == 0:
                pre(args, core, by_name, ctx, res)
            for i, c in enumerate(checks):
                if res.violation or res.error:
                    break
                total = c.thorough if args.tier == "thorough" else c.quick * (2 if c.quick >= 200 else 1)
                count = max(1, int(total * args.scale) // args.shards)
                seed = (args.seed * 1000003 + args.shard * 7919 + i * 104729) % (2 ** 63)
                core.drive(c, count, seed, ctx, res)
        for k, v in ctx.labels.items():
            res.labels[k] = v
    except core.HarnessError as e:
        res.error = str(e)
    except BaseException:
        import traceback
        res.error = traceback.format_exc()
    tmp = os.path.join(work, "..", "res%d.tmp" % args.shard)
    with open(tmp, "w") as f:
        json.dump(res.as_json(), f)
    os.rename(tmp, os.path.join(scratch, "res%d.json" % args.shard))
    sys.stdout.flush()
    os._exit(0)


def pre(args, core, by_name, ctx, res):
    """Saved inputs: known findings (reported, tolerated) and regressions."""
    fdir = os.path.join(HERE, "findings", args.id)
    for n in sorted(os.listdir(fdir)) if os.path.isdir(fdir) else []:
        rep = json.load(open(os.path.join(fdir, n)))
        try:
            core.run_one(by_name[rep["check"]], rep["case"], ctx, res)
        except core.Violation as v:
            res.findings.append(dict(file="findings/%s/%s" % (args.id, n), message=str(v)))
    rdir = os.path.join(HERE, "regressions", args.id)
    for n in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        rep = json.load(open(os.path.join(rdir, n)))
        try:
            core.run_one(by_name[rep["check"]], rep["case"], ctx, res)
        except (core.Violation, core.Hang) as v:
            res.violation = dict(check=rep["check"], case=rep["case"],
                                 message="%s (saved input %s)" % (v, n))
            return


# --------------------------------------------------------------------------
# parent process

def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                f, _, what = rest.partition(" ")
                out[f] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--scratch")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.shard is not None:
        shard_main(args)
    t0 = time.time()
    shards = 1 if args.replay else args.shards
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="vpchk-%s-" % args.id, dir=base)
    os.chmod(scratch, 0o755)
    # a directory on another file system, if there is one
    second = tempfile.mkdtemp(prefix="vpchk-%s-" % args.id, dir="/tmp")
    os.chmod(second, 0o755)
    if os.getuid() == 0:
        os.chown(scratch, NOBODY, NOBODY)
        os.chown(second, NOBODY, NOBODY)
    if args.replay:
        local = os.path.join(scratch, "replay.json")
        shutil.copyfile(args.replay, local)
        os.chmod(local, 0o644)
        args.replay = local
    limit = args.limit or (840 if args.tier == "quick" else 7200)
    results, procs, failed = [], [], None
    try:
        for k in range(shards):
            cmd = [VENV, os.path.join(HERE, "check.py"), args.id, "--shard", str(k),
                   "--scratch", scratch, "--tier", args.tier, "--seed", str(args.seed),
                   "--shards", str(shards), "--scale", str(args.scale)]
            if args.only:
                cmd += ["--only", args.only]
            if args.replay:
                cmd += ["--replay", args.replay]
            log = open(os.path.join(scratch, "log%d" % k), "w")
            procs.append(subprocess.Popen(cmd, env=dict(shard_env(scratch), SECOND=second), cwd=scratch,
                                          stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                          start_new_session=True))
            log.close()
        pending = set(range(shards))
        while pending:
            for k in sorted(pending):
                if procs[k].poll() is not None:
                    pending.discard(k)
                    p = os.path.join(scratch, "res%d.json" % k)
                    if os.path.exists(p):
                        results.append((k, json.load(open(p))))
                    else:
                        tail = open(os.path.join(scratch, "log%d" % k), errors="replace").read()[-3000:]
                        failed = "shard %d died (rc %s): %s" % (k, procs[k].returncode, tail)
            if any(r["violation"] for _, r in results):
                break
            if time.time() - t0 > limit:
                failed = "time limit: inconclusive"
                break
            time.sleep(0.02)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
        for d in (scratch, second):
            subprocess.call(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
            subprocess.call(["rm", "-rf", "--", d], stderr=subprocess.DEVNULL)
    results.sort()
    return report(args, results, failed, time.time() - t0)


def report(args, results, failed, wall):
    sys.path.append(HYP)
    pid = args.id
    rules = meta(pid)
    viol = next((r["violation"] for _, r in results if r["violation"]), None)
    errors = [r["error"] for _, r in results if r["error"]]
    if failed:
        errors.append(failed)
    distinct, samples, labels, per = {}, {}, {}, {}
    ev = 0
    for _, r in results:
        ev += r["evaluations"]
        for k, v in r["distinct"].items():
            distinct.setdefault(k, set()).update(v)
        for k, v in r["samples"].items():
            samples.setdefault(k, [])
            samples[k] += v[:max(0, 3 - len(samples[k]))]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per_check"].items():
            per[k] = per.get(k, 0) + v
    known = known_findings(pid)
    unlisted = None
    for _, r in results:
        for f in r["findings"]:
            if f["file"] in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[f["file"]], f["file"]))
            else:
                unlisted = f
    if not args.replay and not args.only:
        flat = []
        for k in sorted(samples):
            for c in samples[k]:
                s = json.dumps(c, ensure_ascii=True)
                flat.append({"check": k, "case": c if len(s) < 3000 else s[:3000] + "..."})
        evidence = dict(
            property=pid, tier=args.tier, seed=args.seed, level="exploration",
            coverage=dict(
                evaluations=ev,
                distinct_nontrivial=sum(len(v) for v in distinct.values()),
                rule="; ".join("%s: %s" % (k, v) for k, v in rules.items()),
                samples=flat or ["none: stopped before a non-trivial case"],
                executed_per_check=per,
                distinct_nontrivial_per_check={k: len(v) for k, v in distinct.items()},
                labels=dict(sorted(labels.items())),
                shards=len(results)),
            assumptions=["the kernel, CPython and its standard library behave as documented",
                         "runs as an unprivileged user on a tmpfs or ordinary local file system"],
            wall_s=round(wall, 3), violations=1 if viol else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.rename(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    if viol:
        import hashlib
        h = hashlib.sha1(json.dumps(viol["case"], sort_keys=True).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (pid, viol["check"], h))
        with open(path, "w") as f:
            json.dump(dict(property=pid, check=viol["check"], case=viol["case"],
                           message=viol["message"]), f, indent=1, ensure_ascii=True)
            f.write("\n")
        print("case: %s" % json.dumps(viol["case"], ensure_ascii=True)[:2000])
        print("what: %s" % viol["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if unlisted:
        print("what: %s" % unlisted["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(HERE, unlisted["file"])))
        return 1
    if errors:
        print("ERROR property=%s\n%s" % (pid, errors[0][:6000]))
        return 2
    print("ok property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs" % (
        pid, args.tier, args.seed, ev, sum(len(v) for v in distinct.values()), wall))
    return 0


def meta(pid):
    """Rules of the sub-checks, read without importing the code under test."""
    import ast
    out = {}
    tree = ast.parse(open(os.path.join(HERE, "props", pid + ".py")).read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Check":
            name = ast.literal_eval(node.args[0])
            for kw in node.keywords:
                if kw.arg == "rule":
                    out[name] = ast.literal_eval(kw.value)
    return out


if __name__ == "__main__":
    sys.exit(main())
