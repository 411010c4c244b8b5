#!/usr/bin/env python3
"""Confirm planted bugs.

  plant.py diff ID FILE            make seeded/ID/patch.diff from a scratch copy edited by an `edit.py`-style
                                   list of replacements read as JSON from stdin: [[path, old, new], ...]
  plant.py check ID [ID...]        for each planted bug: does it apply, does it change original lines only, do the
                                   stable tests pass, does the demo tell the trees apart, which checks catch it
                                   (options: --no-tests, --own: only the check of the bug's property)

Everything happens in scratch copies of /repo under /tmp, which are removed again.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "ba6a3da"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def copy(name):
    d = tempfile.mkdtemp(prefix="plant-%s-" % name, dir="/tmp")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "book"))
    return d


def diff(ident, edits):
    out = os.path.join(ROOT, "seeded", ident)
    os.makedirs(out, exist_ok=True)
    d = copy(ident)
    try:
        for path, old, new in edits:
            p = os.path.join(d, "src/openclsim", path)
            text = open(p).read()
            assert text.count(old) == 1, (path, text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        rc, text = sh(["git", "diff"], cwd=d)
        # (book was left out of the copy)
        parts = re.split(r"(?m)^(?=diff --git )", text)
        text = "".join(p for p in parts if p.startswith("diff --git a/src/"))
        open(os.path.join(out, "patch.diff"), "w").write(text)
    finally:
        shutil.rmtree(d)


def blame_ok(patch):
    """The removed lines of a patch are lines of the original repository."""
    bad = []
    path, line = None, 0
    n = 0
    cache = {}
    for row in open(patch).read().split("\n"):
        if row.startswith("--- a/"):
            path = row[6:]
            rc, text = sh(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", "HEAD", "--", path])
            cache[path] = [r.split()[0].lstrip("^")[:7] for r in text.split("\n") if r]
        elif row.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", row).group(1))
        elif path and row.startswith("-") and not row.startswith("---"):
            n += 1
            if cache[path][line - 1] != BASE[:7]:
                bad.append((path, line, cache[path][line - 1]))
            line += 1
        elif path and not row.startswith("+"):
            line += 1
    return n, bad


def tests(d):
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d).replace("-n 8", "-n 4")
    out = os.path.join(d, ".results.json")
    tmp = os.path.join(d, ".test.sh")
    open(tmp, "w").write(script)
    rc, text = sh(["bash", tmp, out], cwd=d, env={"PYTHONPATH": d + "/src"})
    res = json.load(open(out))
    return res, text


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def failed_of(res):
    if isinstance(res, dict):
        for key in ("failed", "failures"):
            if key in res:
                return [k for k in sorted(res[key]) if k in stable()]
    return ["?"]


def check(ident, do_tests, pids):
    out = os.path.join(ROOT, "seeded", ident)
    meta = json.load(open(os.path.join(out, "meta.json")))
    lines = []
    n, bad = blame_ok(os.path.join(out, "patch.diff"))
    lines.append("removed lines %d, not original: %s" % (n, bad))
    rc, text = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo", timeout=300)
    lines.append("demo on /repo: %d%s" % (rc, "" if rc == 0 else "\n" + text[-1500:]))
    d = copy(ident)
    try:
        rc, text = sh(["git", "apply", os.path.join(out, "patch.diff")], cwd=d)
        lines.append("apply: %d %s" % (rc, text))
        rc, text = sh(["bash", os.path.join(out, "demo.sh")], cwd=d, env={"PYTHONPATH": d + "/src"}, timeout=300)
        lines.append("demo on patched: %d  %s" % (rc, text.strip().split("\n")[-1][:300]))
        if do_tests:
            res, text = tests(d)
            lines.append("tests: failed %s   %s" % (failed_of(res), text.strip().split("\n")[-1][:120]))
        for pid in pids or [meta["property"]]:
            rc, text = sh(
                [PY, os.path.join(ROOT, "check.py"), pid], cwd=ROOT,
                env={"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_OUT": os.path.join(d, ".out")},
            )
            rows = [r[:300] for r in text.split("\n") if r.startswith("seed ")]
            lines.append("check %s: %d %s" % (pid, rc, rows[:2]))
    finally:
        shutil.rmtree(d)
    return ident, meta["property"], lines


def main(argv):
    if argv[0] == "diff":
        diff(argv[1], json.load(sys.stdin))
        return
    do_tests = "--no-tests" not in argv
    pids = []
    if "--all" in argv:
        pids = ["C%02d" % i for i in range(1, 28)]
    for a in argv:
        if a.startswith("--checks="):
            pids = a[9:].split(",")
    ids = [a for a in argv[1:] if not a.startswith("--")]
    if not ids:
        ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
    jobs = 2
    with ThreadPoolExecutor(jobs) as ex:
        for ident, pid, lines in ex.map(lambda i: check(i, do_tests, pids), ids):
            print("== %s (%s)" % (ident, pid))
            for row in lines:
                print("   " + row)
            sys.stdout.flush()


main(sys.argv[1:])
