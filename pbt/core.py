"""
Runner: generated-input search with Hypothesis, sharded over processes.

A property module registers *sub-checks*.  A sub-check is a Hypothesis
strategy producing a JSON-able ``case`` and a function ``check(case)`` that
decides the property on that one case with an explicit oracle, raising
``Violation`` when it fails and returning a tag (string) when the case is
non-trivial (by the rule written beside it), or None when it is trivial.
"""

import hashlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_SCRATCH", VERIF)  # where evidence and replays go
REPO = os.environ.get("PYOPTMAT_REPO", "/repo")

CASE_LIMIT = 150.0  # wall seconds before a single case counts as hanging
SHRINK_LIMIT = float(os.environ.get("VERIF_SHRINK", "45"))  # wall seconds spent on shrinking one failure


class Violation(AssertionError):
    """The property does not hold on this case"""


class Skip(Exception):
    """The case falls outside the domain of the property (counted as trivial)"""


class Sub:
    """One sub-check"""

    def __init__(self, prop, name, strategy, check, n, rule, many=True):
        self.prop, self.name, self.strategy = prop, name, strategy
        self.check, self.n, self.rule = check, n, rule


REGISTRY = {}
RULES = {}


def sub(prop, name, strategy, n, rule):
    """Register a sub-check: ``n`` is the number of cases of a quick run"""

    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Sub(prop, name, strategy, fn, n, rule))
        return fn

    return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def derive(*parts):
    return int.from_bytes(
        hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()[:6], "big"
    )


class _Alarm(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def run_case(s, case):
    """Decide one case: returns (tag or None); raises Violation"""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        import random

        import numpy as np
        import torch

        sd = derive(canon(case)) % (2**31)
        torch.manual_seed(sd)
        np.random.seed(sd)
        random.seed(sd)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return s.check(case)
    except Skip:
        return None
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except _Alarm:
        raise Violation(f"no answer within {CASE_LIMIT} s on a valid input") from None
    except Exception as exc:  # the unchanged code raises on none of these inputs
        tb = traceback.format_exc(limit=-6)
        raise Violation(
            f"{type(exc).__name__} on a valid input: {str(exc)[:300]}\n{tb}"
        ) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_unit(s, seed, n, deadline):
    """Run n generated cases of one sub-check, stop at the first failure"""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    st = {
        "evals": 0,
        "non": set(),
        "tags": {},
        "samples": [],
        "fail": None,
        "skipped": 0,
        "cut": 0,
    }
    state = {"first": None}

    def body(case):
        now = time.time()
        if state["first"] is None and now > deadline:
            st["cut"] += 1
            return
        if state["first"] is not None and now - state["first"] > SHRINK_LIMIT:
            raise _StopShrink()
        try:
            tag = run_case(s, case)
        except Violation as v:
            if state["first"] is None:
                state["first"] = time.time()
            key = len(canon(case))
            if st["fail"] is None or key <= st["fail"][0]:
                st["fail"] = (key, case, str(v))
            raise
        if state["first"] is None:
            st["evals"] += 1
            if tag:
                hsh = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                st["non"].add(hsh)
                for t in str(tag).split(","):
                    st["tags"][t] = st["tags"].get(t, 0) + 1
                if len(st["samples"]) < 2 and st["evals"] > 3:
                    st["samples"].append(case)

    test = given(s.strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        print_blob=False,
    )(test)
    test = hseed(seed)(test)
    try:
        test()
    except _StopShrink:
        pass
    except Violation:
        pass
    except Exception:
        if st["fail"] is None:
            raise
    return st


class _StopShrink(BaseException):
    pass


def _worker(prop, tasks, out, deadline, stop):
    try:
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        import torch

        torch.set_num_threads(1)
        subs = {s.name: s for s in REGISTRY[prop]}
        while True:
            try:
                task = tasks.get_nowait()
            except queue.Empty:
                break
            name, shard, seed, n = task
            if stop.is_set():
                out.put(("skipped", name, shard, None))
                continue
            try:
                r = _run_unit(subs[name], seed, n, deadline)
                out.put(("ok", name, shard, r))
                if r["fail"] is not None:
                    stop.set()
            except BaseException:  # generator or harness trouble
                out.put(("error", name, shard, traceback.format_exc()))
    finally:
        out.put(("done", None, None, None))
        out.close()
        out.join_thread()
        os._exit(0)


def write_replay(prop, name, case, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((name + canon(case)).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{name}-{h}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "sub": name,
                "case": case,
                "message": msg,
                "how": f"/verif/check replay {path}",
            },
            f,
            indent=1,
            sort_keys=True,
        )
        f.write("\n")
    return path


def load_known():
    """Entries of the known-findings file that are not repaired"""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property="):
                # known: property=<id> sub=<name> match=<substring> :: what fails
                head, _, what = line[len("known: ") :].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 2))
                d["what"] = what
                known.setdefault(d["property"], []).append(d)
    return known


def run_property(prop, tier, seed, mult=None, budget=None, only=None):
    t0 = time.time()
    subs = [s for s in REGISTRY[prop] if only is None or s.name in only]
    if mult is None:
        mult = 1.0 if tier == "quick" else 25.0
    if budget is None:
        budget = 200.0 if tier == "quick" else 780.0
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    ctx = mp.get_context("fork")
    units = []
    for s in subs:
        total = max(8, int(s.n * mult))
        shards = max(1, min(total // 8, nproc if tier == "quick" else 6 * nproc))
        per = -(-total // shards)
        for i in range(shards):
            units.append((s.name, i, derive(prop, s.name, i, seed), per))
    # interleave the sub-checks so that a time limit cuts all of them evenly
    units.sort(key=lambda u: (u[1], u[0]))
    tasks, out, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    for u in units:
        tasks.put(u)
    time.sleep(0.05)
    procs = [
        ctx.Process(target=_worker, args=(prop, tasks, out, deadline, stop))
        for _ in range(min(nproc, len(units)))
    ]
    for p in procs:
        p.start()
    agg = {
        s.name: {"evals": 0, "non": set(), "tags": {}, "samples": [], "cut": 0}
        for s in subs
    }
    fails, errors, left = [], [], len(procs)
    hard = deadline + CASE_LIMIT + SHRINK_LIMIT + 30
    while left:
        try:
            kind, name, shard, r = out.get(timeout=1.0)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in procs):
                errors.append(("runner", "workers ended without an answer"))
                break
            continue
        if kind == "done":
            left -= 1
        elif kind == "error":
            errors.append((name, r))
        elif kind == "ok":
            a = agg[name]
            a["evals"] += r["evals"]
            a["non"] |= r["non"]
            a["cut"] += r["cut"]
            for k, v in r["tags"].items():
                a["tags"][k] = a["tags"].get(k, 0) + v
            a["samples"] += r["samples"]
            if r["fail"] is not None:
                fails.append((r["fail"][0], name, r["fail"][1], r["fail"][2]))
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()

    known = load_known().get(prop, [])
    vio = []
    seen_known = set()
    for _, name, case, msg in sorted(fails, key=lambda f: (f[1], f[0])):
        k = [
            d
            for d in known
            if d.get("sub") == name and d.get("match", "\0") in msg
        ]
        if k:
            seen_known.add(k[0]["what"])
            continue
        vio.append((name, case, msg))
    for d in known:
        print(f"KNOWN-FINDING: property={prop} {d['what']}")

    reported = set()
    lines = []
    for name, case, msg in vio:
        if name in reported:
            continue
        reported.add(name)
        path = write_replay(prop, name, case, msg)
        lines.append((name, path, msg))

    evals = sum(a["evals"] for a in agg.values())
    non = sum(len(a["non"]) for a in agg.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": non,
            "rule": RULES.get(prop, "")
            + " Non-trivial, per sub-check: "
            + "; ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": [
                {"sub": s.name, "case": c} for s in subs for c in agg[s.name]["samples"][:2]
            ],
            "per_sub_check": {
                s.name: {
                    "evaluations": agg[s.name]["evals"],
                    "distinct_nontrivial": len(agg[s.name]["non"]),
                    "classes": dict(sorted(agg[s.name]["tags"].items())),
                    "cut_by_time": agg[s.name]["cut"],
                }
                for s in subs
            },
        },
        "assumptions": [
            "CPU, float64 default dtype; inputs inside the documented domain of each model",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for name, path, msg in lines:
        print(f"--- {prop}/{name}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
    for name, e in errors:
        print(f"HARNESS-ERROR {prop}/{name}:\n{e}")
    print(
        f"{prop} {tier} seed={seed}: {evals} cases, {non} distinct non-trivial, "
        f"{len(lines)} violations, {ev['wall_s']} s"
    )
    for s in subs:
        a = agg[s.name]
        print(
            f"   {s.name}: {a['evals']} cases, {len(a['non'])} non-trivial"
            + (f", {a['cut']} cut by time" if a["cut"] else "")
        )
    if lines:
        return 1
    if errors:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    s = [x for x in REGISTRY[d["property"]] if x.name == d["sub"]][0]
    try:
        run_case(s, d["case"])
    except Violation as v:
        print(f"--- {d['property']}/{d['sub']}: {v}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print(f"{d['property']}/{d['sub']}: holds on {path}")
    return 0
