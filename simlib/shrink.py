"""Greedy minimisation of a failing case: scenario, faults and schedule."""

import copy
import json
import time

from .isolate import ChildError, in_child


def walk_paths(nodes, path=()):
    for i, n in enumerate(nodes):
        yield path + (i,), n
        if "subs" in n:
            yield from walk_paths(n["subs"], path + (i, "subs"))


def at(acts, path):
    x = acts
    for p in path:
        x = x[p]
    return x


def refs(e):
    """Names an expression mentions: (activities, objects)."""
    if isinstance(e, list):
        for x in e:
            yield from refs(x)
    elif isinstance(e, dict):
        for k in ("and", "or"):
            if k in e:
                yield from refs(e[k])
        if "act" in e or "actid" in e:
            yield ("act", e.get("act", e.get("actid")))
        if "c" in e:
            yield ("obj", e["c"][0])


def valid(sc):
    """Only scenarios that refer to things that exist."""
    names, objs = set(), set(sc["objs"])
    nodes = [n for _, n in walk_paths(sc["acts"])]
    if not nodes:
        return False
    for n in nodes:
        names.add(n["n"])
        if n["t"] == "single":
            names.update(n["n"] + s for s in (" sailing empty", " loading", " sailing filled", " unloading"))
        if "subs" in n and not n["subs"]:
            return False
    for n in nodes:
        for k in ("mover", "dest", "proc", "org", "dst", "loader", "unloader"):
            if n.get(k) and n[k] not in objs:
                return False
        for k in ("alog", "keep"):
            if any(x not in objs for x in n.get(k) or ()):
                return False
        for k in ("se", "cond"):
            for kind, name in refs(n.get(k)):
                if name not in (names if kind == "act" else objs):
                    return False
        if n["t"] == "while":
            leafs = [m for _, m in walk_paths(n["subs"]) if "subs" not in m]
            if not any(m.get("dur", 1) for m in leafs):
                return False
    return all(a.get("obj") is None or a["obj"] in objs for a in sc.get("actors", ()))


def used_objects(sc):
    used = set()
    for _, n in walk_paths(sc["acts"]):
        for k in ("mover", "dest", "proc", "org", "dst", "loader", "unloader"):
            used.add(n.get(k))
        for k in ("alog", "keep"):
            used.update(n.get(k) or ())
        for k in ("se", "cond"):
            used.update(name for kind, name in refs(n.get(k)) if kind == "obj")
    used.update(a.get("obj") for a in sc.get("actors", ()))
    return used


def exprs(e):
    """Simpler forms of an expression."""
    if isinstance(e, list) or (isinstance(e, dict) and ("and" in e or "or" in e)):
        parts = e if isinstance(e, list) else e.get("and", e.get("or"))
        for p in parts:
            yield p
        for i in range(len(parts)):
            rest = parts[:i] + parts[i + 1:]
            if rest:
                if isinstance(e, list):
                    yield rest
                else:
                    yield {("and" if "and" in e else "or"): rest}
        for i, p in enumerate(parts):
            for q in exprs(p):
                new = parts[:i] + [q] + parts[i + 1:]
                yield new if isinstance(e, list) else {("and" if "and" in e else "or"): new}


def scenario_shrinks(sc):
    def edit(f):
        new = copy.deepcopy(sc)
        f(new)
        return new

    def without(key, i):
        def f(new):
            del new[key][i]
            if not new[key]:
                del new[key]
        return f

    # big steps first
    for i in range(len(sc["acts"])):
        if len(sc["acts"]) > 1:
            yield edit(lambda new: new["acts"].pop(i))
    for key in ("actors", "ops"):
        if sc.get(key):
            yield edit(lambda new: new.pop(key))
    for i in range(len(sc.get("actors", ()))):
        yield edit(without("actors", i))
    for i in range(len(sc.get("ops", ()))):
        yield edit(without("ops", i))
    for key in ("hash", "ids", "t0", "actors_first", "env", "numpy"):
        if sc.get(key):
            yield edit(lambda new: new.pop(key))
    paths = list(walk_paths(sc["acts"]))
    for path, n in paths:
        if "subs" in n:
            for j in range(len(n["subs"])):
                def repl(new):
                    holder = at(new["acts"], path[:-1])
                    holder[path[-1]] = holder[path[-1]]["subs"][j]
                yield edit(repl)
            if len(n["subs"]) > 1:
                for j in range(len(n["subs"])):
                    yield edit(lambda new: at(new["acts"], path)["subs"].pop(j))
        if n.get("k", 1) > 1 and n["t"] == "repeat":
            yield edit(lambda new: at(new["acts"], path).update(k=n["k"] - 1))
        for key in ("plug", "se", "keep", "alog", "eo", "grp", "amt"):
            if n.get(key) is not None and n.get(key) != []:
                def drop(new):
                    node = at(new["acts"], path)
                    node.pop(key)
                    if key == "grp":
                        node.pop("keep", None)
                yield edit(drop)
        for key in ("plug", "keep", "alog"):
            if len(n.get(key) or ()) > 1:
                for j in range(len(n[key])):
                    yield edit(lambda new: at(new["acts"], path)[key].pop(j))
        for key in ("se", "cond"):
            for e in exprs(n.get(key)):
                yield edit(lambda new: at(new["acts"], path).update({key: e}))
        if n.get("dur") not in (None, 1):
            yield edit(lambda new: at(new["acts"], path).update(dur=1))
        if n["t"] in ("move", "shift") and "phase" in n:
            def plain(new):
                node = at(new["acts"], path)
                node.pop("phase")
                node["dur"] = 1
            yield edit(plain)
    used = used_objects(sc)
    extra = [o for o in sc["objs"] if o not in used]
    if extra:
        def prune(new):
            for o in extra:
                del new["objs"][o]
        yield edit(prune)
    for name, o in sc["objs"].items():
        for key in ("lm", "um", "eo", "store"):
            if o.get(key):
                yield edit(lambda new: new["objs"][name].pop(key))
        for key in ("lr", "ur"):
            if o.get(key, 1) != 1:
                yield edit(lambda new: new["objs"][name].update({key: 1}))
        if o.get("slots", 1) > 1:
            yield edit(lambda new: new["objs"][name].update(slots=1))
    sched = sc.get("sched", {})
    if sched.get("mode", "fifo") != "fifo":
        yield edit(lambda new: new.update(sched={"mode": "fifo"}))
        for i, c in enumerate(sched.get("choices") or ()):
            if c:
                def zero(new):
                    new["sched"]["choices"][i] = 0
                yield edit(zero)
    h = sc.get("horizon", 1000)
    for new_h in (h / 10, h / 2):
        if new_h >= 5:
            yield edit(lambda new: new.update(horizon=new_h))


def shrinks(check, case):
    if "sc" in case:
        for sc in scenario_shrinks(case["sc"]):
            if valid(sc):
                new = dict(case)
                new["sc"] = sc
                yield new
    yield from check.shrinks(case)


def minimise(check, case, want, budget=45, limit=500, before=()):
    """(smallest failing case found, runs used, cases that must be run before it).

    Every attempt is made in a forked child of a process that has run nothing.  A failure that
    needs what earlier cases of the same worker left behind in the process is reproduced by
    running (the fewest possible of) those first.
    """
    from .runner import relevant, signature

    deadline = time.time() + budget
    tries = 0

    def fails(c, warm=()):
        nonlocal tries
        tries += 1
        check.warm(c)
        try:
            out = in_child(attempt, check, json.loads(json.dumps(c)), warm)
        except ChildError:
            return None
        hit = any(signature(h) == want for h in relevant(check, out.problems))
        return out if hit else None

    best = json.loads(json.dumps(case))
    # write the schedule down as explicit choices, so that it can be shortened
    out = fails(best)
    warm = []
    if out is None:
        warm = warm_up(fails, best, list(before), deadline)
        if warm is None:
            return case, tries, []
        out = fails(best, warm)
        if out is None:
            return case, tries, warm
        deadline += budget / 3
    if "sc" in best and out.ties and best["sc"].get("sched", {}).get("mode", "fifo") != "fifo":
        new = copy.deepcopy(best)
        new["sc"]["sched"] = {"mode": best["sc"]["sched"]["mode"], "choices": out.ties}
        if fails(new, warm) is not None:
            best = new
    progress = True
    while progress and tries < limit and time.time() < deadline:
        progress = False
        for new in shrinks(check, best):
            if tries >= limit or time.time() > deadline:
                break
            if len(json.dumps(new)) >= len(json.dumps(best)) and new != best:
                # equal size is fine for simplified numbers, growth is not
                if len(json.dumps(new)) > len(json.dumps(best)) + 12:
                    continue
            if fails(new, warm) is not None:
                best = new
                progress = True
                break
    return best, tries, warm


def attempt(check, case, warm):
    for c in warm:
        check.evaluate(json.loads(json.dumps(c)))
    return check.evaluate(case)


def warm_up(fails, case, before, deadline):
    """The fewest of the cases run before that make this one fail."""
    k = 1
    while True:
        warm = before[-k:]
        if fails(case, warm) is not None:
            break
        if k >= len(before) or time.time() > deadline:
            return None
        k *= 2
    while len(warm) > 1 and time.time() < deadline:
        half = len(warm) // 2
        if fails(case, warm[:half]) is not None:
            warm = warm[:half]
        elif fails(case, warm[half:]) is not None:
            warm = warm[half:]
        else:
            break
    i = 0
    while len(warm) > 1 and i < len(warm) and time.time() < deadline:
        rest = warm[:i] + warm[i + 1:]
        if fails(case, rest) is not None:
            warm = rest
        else:
            i += 1
    return warm
