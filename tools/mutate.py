#!/usr/bin/env python3
"""Mutation testing of the checks.

  mutate.py gen OUT.json                       list mutants of /repo/src/openclsim
  mutate.py run OUT.json RESULT.jsonl [--jobs 8] [--cases N] [--only FILE]
  mutate.py one SRC N                          (internal) run all checks on a source tree

Each mutant is a copy of the sources with one small change.  It is run through the checks and, if
no check raises an alarm within N cases (seed "mut"), through the unit tests.  Everything happens in scratch copies; /repo is not touched.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUTATE_REPO", "/repo")
PY = "/opt/venv/bin/python"
SKIP = ("utils.py", "__init__.py", "dependencies_from_model.py")

FLIP = {
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
    ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is",
}
SWAPNAME = {"min": "max", "max": "min", "any": "all", "all": "any"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants_of(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.split("\n")
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()) + 1)
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, kind):
        a, b = span(n)
        out.append({"line": n.lineno, "a": a, "b": b, "new": new, "old": raw[a:b].decode(), "kind": kind})

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body:
            f = n.body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
                doc.add(id(f))
                doc.add(id(f.value))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "%s %s %s" % (src(n.left), FLIP[type(n.ops[0])], src(n.comparators[0])), "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE)):
                put(n, "%s > %s" % (src(n.left), src(n.comparators[0])), "cmp2")
            if isinstance(n.ops[0], (ast.Gt, ast.GtE)):
                put(n, "%s < %s" % (src(n.left), src(n.comparators[0])), "cmp2")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % src(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + op2.join("(%s)" % src(v) for v in rest) + ")", "drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % src(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(%s)" % src(n.operand), "neg")
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            put(n, "(%s %s %s)" % (src(n.left), ARITH[type(n.op)], src(n.right)), "arith")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in (
            "full", "empty", "ge", "gt", "le", "lt", "loading", "unloading", "pre_process", "post_process",
            "_reservations", "default", "time", "container", "activity", "done", "and", "or",
        ):
            put(n, repr(n.value + "_x"), "str")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp) or isinstance(n, ast.While):
            put(n.test, "True", "true")
            put(n.test, "False", "false")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SWAPNAME:
                put(n.func, SWAPNAME[n.func.id], "swapname")
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(
                    n,
                    "%s(%s)" % (src(n.func), ", ".join([src(n.args[1]), src(n.args[0])] + [src(a) for a in n.args[2:]])),
                    "swapargs",
                )
            for i, k in enumerate(n.keywords):
                if k.arg:
                    parts = [src(a) for a in n.args] + [
                        ("%s=%s" % (q.arg, src(q.value)) if q.arg else "**" + src(q.value))
                        for q in n.keywords if q is not k
                    ]
                    put(n, "%s(%s)" % (src(n.func), ", ".join(parts)), "dropkw")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)):
            put(n, "pass", "del")
        elif isinstance(n, ast.Assign):
            if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "ret")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "del")
        elif isinstance(n, ast.AugAssign):
            pass
        if isinstance(n, ast.AugAssign) and type(n.op) in (ast.Add, ast.Sub):
            op = "-=" if isinstance(n.op, ast.Add) else "+="
            put(n, "%s %s %s" % (src(n.target), op, src(n.value)), "aug")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
    good, seen = [], set()
    for m in out:
        key = (m["a"], m["b"], m["new"])
        if key in seen or m["new"] == m["old"]:
            continue
        seen.add(key)
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        good.append(m)
    return good


def gen(out):
    res = []
    top = os.path.join(REPO, "src", "openclsim")
    for d, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(d, f)
                for m in mutants_of(p):
                    m["file"] = os.path.relpath(p, REPO)
                    m["id"] = len(res)
                    res.append(m)
    json.dump(res, open(out, "w"))
    print(len(res), "mutants")


def one(cases, enough=5):
    """Run in the controlled interpreter: which checks notice?"""
    from simlib import props, runner
    from simlib.run import HarnessError

    import signal

    signal.alarm(1500)
    pids = ["C%02d" % i for i in range(1, 29)]
    found = {}
    checks = {}
    for p in pids:
        checks[p] = props.get(p)
        checks[p].known = runner.known_findings(p)
        checks[p].prepare()
    t0 = time.time()
    for i in range(cases):
        if found and i >= enough or i >= 40 and time.time() - t0 > 150:
            break
        for p in pids:
            if p in found or i % 199 == 7 and p == "C17":
                continue
            c = checks[p]
            if time.time() - t0 > 1200:
                break
            for j in range(20 * i, 20 * i + 20) if p == "C28" else (i,):
                try:
                    out = c.evaluate(c.case(runner.case_rng("mut", p, j), j))
                except HarnessError as e:
                    found[p] = ["HARNESS", str(e)[:100], j]
                    break
                hits = [h for h in runner.relevant(c, out.problems) if not c.is_known(None, h)]
                if hits:
                    found[p] = [hits[0][0], hits[0][1][:120], j]
                    break
    print("RESULT " + json.dumps(found))


def run_one(m, slot, cases, tests=True):
    work = "/tmp/mut/w%d" % slot
    if not os.path.exists(work):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree(REPO, work, ignore=shutil.ignore_patterns(".git", "notebooks", "book", "docs"))
    path = os.path.join(work, m["file"])
    orig = open(os.path.join(REPO, m["file"]), "rb").read()
    env = dict(os.environ)
    env["VERIF_REPO"] = work
    env["MPLCONFIGDIR"] = "/tmp/mut/mpl%d" % slot
    res = {"id": m["id"]}
    try:
        open(path, "wb").write(orig[: m["a"]] + m["new"].encode() + orig[m["b"]:])
        try:
            p = subprocess.run(
                [sys.executable, os.path.abspath(__file__), "one", str(cases)], env=env,
                capture_output=True, text=True, timeout=1600,
            )
            line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
            res["found"] = json.loads(line[0][7:]) if line else {"ALL": ["DIED", (p.stderr or p.stdout)[-200:], 0]}
        except subprocess.TimeoutExpired:
            res["found"] = {"ALL": ["TIMEOUT", "", 0]}
        if tests and not res["found"]:
            e2 = dict(env, PYTHONPATH=os.path.join(work, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
            try:
                p = subprocess.run(
                    [PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "-o", "addopts=", "--disable-warnings", "--timeout=120"],
                    cwd=work, env=e2, capture_output=True, text=True, timeout=300,
                )
                res["tests"] = p.returncode
            except subprocess.TimeoutExpired:
                res["tests"] = "timeout"
    finally:
        open(path, "wb").write(orig)
    return res


def run(src, dst, jobs, cases, only, tests=True):
    muts = json.load(open(src))
    done = set()
    if os.path.exists(dst):
        done = {json.loads(line)["id"] for line in open(dst)}
    todo = [m for m in muts if m["id"] not in done and (only is None or only in m["file"])]
    print(len(todo), "to do")
    import queue
    import threading

    slots = queue.Queue()
    for s in range(jobs):
        slots.put(s)
    lock = threading.Lock()
    f = open(dst, "a")

    def work(m):
        s = slots.get()
        try:
            r = run_one(m, s, cases, tests)
        except Exception as e:  # noqa: BLE001
            r = {"id": m["id"], "found": {}, "error": repr(e)}
        finally:
            slots.put(s)
        with lock:
            f.write(json.dumps(r) + "\n")
            f.flush()

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, todo))


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen":
        gen(sys.argv[2])
    elif cmd == "one":
        sys.path.insert(0, ROOT)
        from simlib import launch

        launch.ensure()
        one(int(sys.argv[2]))
        sys.stdout.flush()
        os._exit(0)
    else:
        import argparse

        ap = argparse.ArgumentParser()
        ap.add_argument("cmd")
        ap.add_argument("src")
        ap.add_argument("dst")
        ap.add_argument("--jobs", type=int, default=8)
        ap.add_argument("--cases", type=int, default=100)
        ap.add_argument("--only")
        a = ap.parse_args()
        run(a.src, a.dst, a.jobs, a.cases, a.only)
