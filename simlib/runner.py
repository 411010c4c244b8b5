"""Seeded search over many simulated runs, minimisation and replay files."""

import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import subprocess
import sys
import time
import traceback

from . import shrink
from .base import Outcome
from .isolate import ChildError, in_child
from .run import HarnessError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", ROOT)  # where evidence and replay files go
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


def case_rng(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def known_findings(pid):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                item = json.loads(line)
                if item.get("property") == pid:
                    out.append(item)
    except FileNotFoundError:
        pass
    return out


def signature(problem):
    code, msg = problem[0], problem[1]
    if code == "crash":
        # the type of the exception belongs to the signature
        return "crash/" + (msg.split(": ")[1] if ": " in msg else msg)
    return code


def relevant(check, problems):
    return [p for p in problems if p[0] in check.codes or p[0] in ("crash", "hang")]


class Tally:
    """What a worker covered."""

    def __init__(self):
        self.runs = 0
        self.nontrivial = 0
        self.shapes = set()
        self.sums = {}
        self.counts = {}
        self.samples = []
        self.other = {}

    def add(self, i, case, out):
        self.runs += 1
        if out.nontrivial:
            self.nontrivial += 1
            if out.shape:
                self.shapes.add(out.shape)
        for k, v in out.stats.items():
            if k == "counts":
                for a, b in v.items():
                    self.counts[a] = self.counts.get(a, 0) + b
            elif isinstance(v, bool):
                self.sums[k] = self.sums.get(k, 0) + int(v)
            elif isinstance(v, (int, float)):
                self.sums[k] = self.sums.get(k, 0) + v
        for p in out.problems:
            self.other[p[0]] = self.other.get(p[0], 0) + 1

    def merge(self, o):
        self.runs += o.runs
        self.nontrivial += o.nontrivial
        self.shapes |= o.shapes
        for mine, theirs in ((self.sums, o.sums), (self.counts, o.counts), (self.other, o.other)):
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        self.samples += o.samples


def _worker(check, seed, w, total, deadline, best, pipe):
    tally = Tally()
    error = None
    found = None
    i = w
    try:
        while i < total:
            if i >= best.value or time.time() > deadline:
                break
            case = check.case(case_rng(seed, check.pid, i), i)
            out = check.evaluate(case)
            tally.add(i, case, out)
            if out.nontrivial and len(tally.samples) < 1 and i >= 3:
                tally.samples.append({"index": i, "case": case, "shape": out.shape})
            hits = relevant(check, out.problems)
            hits = [h for h in hits if not check.is_known(case, h)]
            if hits:
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                found = (i, case, hits)
                break
            i += WORKERS
    except BaseException:  # noqa: BLE001
        error = "index %d\n%s" % (i, traceback.format_exc())
    pipe.send_bytes(pickle.dumps((tally, found, error, i)))
    pipe.close()


def explore(check, seed, total, wall):
    ctx = mp.get_context("fork")
    best = ctx.Value("q", 2**62)
    deadline = time.time() + wall
    procs = []
    for w in range(WORKERS):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(check, seed, w, total, deadline, best, b))
        p.start()
        b.close()
        procs.append((p, a))
    tally, found, errors = Tally(), [], []
    for p, a in procs:
        try:
            t, f, e, i = pickle.loads(a.recv_bytes())
        except EOFError:
            errors.append("a worker died")
            p.join()
            continue
        p.join()
        tally.merge(t)
        if f:
            found.append(f)
        if e:
            errors.append(e)
    found.sort(key=lambda f: f[0])
    return tally, (found[0] if found else None), errors


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


def main(check, seed, tier, wall=None, total=None):
    t0 = time.time()
    total = total or (check.thorough if tier == "thorough" else check.quick)
    wall = wall or (720 if tier == "thorough" else 260)
    for item in known_findings(check.pid):
        print("KNOWN-FINDING: property=%s %s" % (check.pid, item["what"]))
    check.known = known_findings(check.pid)
    check.prepare()
    tally, found, errors = explore(check, seed, total, wall)
    violations = 0
    path = None
    minimised = None
    if found is not None:
        i, case, hits = found
        violations = 1
        want = signature(hits[0])
        before = [check.case(case_rng(seed, check.pid, j), j) for j in range(i % WORKERS, i, WORKERS)]
        small, tries, warm = shrink.minimise(check, case, want, budget=45, limit=500, before=before)
        try:
            out = in_child(shrink.attempt, check, json.loads(json.dumps(small)), warm)
        except ChildError as e:  # cannot be, but never lose a violation
            print("note: %s" % e)
            out = Outcome()
        hit = [h for h in relevant(check, out.problems) if signature(h) == want] or hits
        doc = {
            "property": check.pid,
            "seed": seed,
            "index": i,
            "signature": want,
            "problem": hit[0],
            "digest": out.digest,
            "trace": out.trace,
            "warmup": warm,
            "case": small,
            "original": case,
            "minimisation_runs": tries,
            "how": "python3 /verif/replay.py <this file>",
        }
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        tag = hashlib.sha1(canonical(small).encode()).hexdigest()[:10]
        path = os.path.join(OUT, "replays", "%s-%s.json" % (check.pid, tag))
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        minimised = {"index": i, "problem": hit[0], "replay": path}
        proc = subprocess.run(
            [sys.executable, os.path.join(ROOT, "replay.py"), path],
            capture_output=True, text=True, timeout=300,
        )
        ok = proc.returncode == 1
        minimised["replayed_in_a_fresh_process"] = ok
        if not ok:
            print("note: the fresh replay ended with %s\n%s" % (proc.returncode, proc.stdout[-2000:] + proc.stderr[-2000:]))
    took = time.time() - t0
    evidence(check, seed, tier, tally, total, took, violations, minimised, errors)
    print(
        "%s %s: %d of %d runs, %d non-trivial, %d distinct interleavings, %.0f s"
        % (check.pid, tier, tally.runs, total, tally.nontrivial, len(tally.shapes), took)
    )
    if tally.other:
        print("problem codes seen (incl. those of other properties): %s" % tally.other)
    if found is not None:
        print("seed %s index %d: %s" % (seed, found[0], minimised["problem"]))
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    if errors:
        print("ERROR in the machinery:\n" + errors[0])
        return 2
    if tally.runs == 0 or tally.nontrivial == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def evidence(check, seed, tier, tally, total, took, violations, minimised, errors):
    hours = max(took, 1e-9) / 3600
    samples = sorted(tally.samples, key=lambda s: len(canonical(s)))[:3]
    cov = {
        "evaluations": tally.runs,
        "distinct_nontrivial": len(tally.shapes) if tally.shapes else tally.nontrivial,
        "rule": check.rule,
        "samples": samples,
        "planned_runs": total,
        "seeds": "run i uses the PRNG seeded with '%s/%s/i', i in [0, %d)" % (seed, check.pid, tally.runs),
        "runs_per_hour": round(tally.runs / hours),
        "nontrivial_runs": tally.nontrivial,
        "distinct_interleavings": len(tally.shapes),
        "interleaving_measure": check.measure,
        "simulated_time": round(tally.sums.pop("simtime", 0), 3),
        "totals": {k: round(v, 3) for k, v in sorted(tally.sums.items())},
        "faults_injected": dict(sorted(tally.counts.items())),
        "real_components": check.real,
        "stubbed_components": check.stub,
        "machinery_errors": errors[:3],
    }
    if minimised:
        cov["violation"] = minimised
    doc = {
        "property": check.pid,
        "tier": tier,
        "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(took, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", check.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


__all__ = ["main", "HarnessError"]
