"""Generated-case runner shared by every check.

A check is a module `checks/<pid>.py` with

    PROPERTY = "P01"
    PARTS = [Part(name, strategy, run, quick=N, thorough=M, rule="...")]

`strategy` is a Hypothesis strategy (or a callable returning one) that yields
a JSON-able case; `run(case, ctx)` executes it against the code in /repo and
raises Violation when the oracle disagrees.  `ctx.nontrivial()` marks a case
as non-trivial by the part's stated rule, `ctx.label(x)` classifies it.

Outcomes: exit 0 held, exit 1 with a VIOLATION line, exit 2/3 harness error.
"""

import argparse
import functools
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
if HERE not in sys.path:
    sys.path.insert(0, HERE)

REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_S = 60.0        # CPU seconds one case may take before it is called a hang
SHRINK_WALL_S = 30.0     # wall seconds allowed for shrinking after a first failure
REDUCE_WALL_S = 20.0     # and for dropping operations from what is left


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class Hang(Exception):
    """A single case consumed CASE_CPU_S of CPU time."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    def __init__(self, name, strategy, run, quick, thorough, rule, deadlock_ok=False):
        self.name = name
        self._strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule

    @property
    def strategy(self):
        import hypothesis.strategies as st
        if isinstance(self._strategy, st.SearchStrategy):
            return self._strategy
        return self._strategy()


class Ctx:
    def __init__(self):
        self.labels = []
        self.nt = False

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, x):
        self.labels.append(str(x))


def jkey(case):
    return json.dumps(case, sort_keys=True, default=_enc)


def _enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"__bytes__": bytes(o).hex()}
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError("case is not serialisable: %r" % (o,))


def _dec(d):
    if set(d) == {"__bytes__"}:
        return bytes.fromhex(d["__bytes__"])
    return d


def normalise(case):
    """The exact value a replay would see."""
    return json.loads(jkey(case), object_hook=_dec)


def classify(exc):
    """'violation' or 'harness' for an exception raised while running a case."""
    import simcore
    if isinstance(exc, (Violation, Hang)):
        return "violation"
    if isinstance(exc, (simcore.Deadlock, simcore.TimeLimit, simcore.SimLimit)):
        return "violation"
    if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError, OSError, ImportError)):
        return "harness"
    # An exception that passes through the code under test, on input the property's
    # domain covers, is a failure of that code.  One raised in a check is one too: the
    # checks are written for everything the library may answer, so the library gave an
    # answer outside of that (a missing attribute, None, a value of another type).
    return "violation"


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    pkg = os.path.realpath(os.path.join(REPO, "cocotbext")) + os.sep
    where = ""
    for fr in tb:
        if os.path.realpath(fr.filename).startswith(pkg):
            where = " [in %s:%d %s]" % (os.path.relpath(fr.filename, REPO), fr.lineno, fr.name)
    msg = str(exc)
    if len(msg) > 1500:
        msg = msg[:1500] + "..."
    return "%s: %s%s" % (type(exc).__name__, msg, where)


def _alarm(signum, frame):
    raise Hang("one case used more than %g CPU seconds" % CASE_CPU_S)


def run_case(part, case, ctx):
    """Run one case; returns None or ('violation'|'harness', text)."""
    random.seed(0xC0C07B)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        part.run(case, ctx)
        return None
    except Exception as e:
        kind = classify(e)
        text = describe(e)
        if kind == "harness":
            text += "\n" + "".join(traceback.format_exception(e))
        if isinstance(e, Hang):
            return ("hang", text)
        return (kind, text)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _Fail(Exception):
    pass


def _job(args):
    """Worker: run n generated cases of one part with one derived seed."""
    pid, part_name, seed, n, deadline = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = load(pid)
    part = [p for p in mod.PARTS if p.name == part_name][0]
    res = {"part": part_name, "evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {},
           "samples": [], "fail": None, "harness": None, "seed": seed}
    nt = set()
    memo = {}
    state = {"t_fail": None, "harness": None, "last": None}

    def body(case):
        case = normalise(case)
        key = jkey(case)
        if key in memo:
            state["last"] = (case, memo[key])
            raise _Fail(memo[key])
        if state["harness"]:
            return
        now = time.time()
        if now > deadline:
            res["skipped"] += 1
            return
        if state["t_fail"] is not None and (now - state["t_fail"] > SHRINK_WALL_S or state.get("hang")):
            return
        ctx = Ctx()
        out = run_case(part, case, ctx)
        if state["t_fail"] is None:
            res["evaluations"] += 1
            for lb in ctx.labels:
                res["labels"][lb] = res["labels"].get(lb, 0) + 1
            if ctx.nt:
                h = hashlib.sha1(key.encode()).hexdigest()[:16]
                if h not in nt:
                    nt.add(h)
                    if len(res["samples"]) < 2:
                        res["samples"].append(shorten(case))
        if out is None:
            return
        kind, text = out
        if kind == "harness":
            state["harness"] = text
            res["harness_case"] = key[:4000]
            return
        if state["t_fail"] is None:
            state["t_fail"] = now
        if kind == "hang":
            state["hang"] = True
        memo[key] = text
        state["last"] = (case, text)
        raise _Fail(text)

    # Near-copies of earlier cases would take up to half of the budget.
    from hypothesis.internal.conjecture import engine
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    test = given(part.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Fail:
        pass
    except BaseException as e:
        if state["last"] is None:
            res["harness"] = "".join(traceback.format_exception(e))
    if state["harness"]:
        res["harness"] = state["harness"]
    if state["last"] is not None:
        case, text = state["last"]
        best = min(memo, key=len)
        if len(best) < len(jkey(case)):
            case, text = json.loads(best, object_hook=_dec), memo[best]
        if not state.get("hang"):
            case, text = reduce_case(part, case, text)
        res["fail"] = {"case": json.loads(jkey(case)), "text": text}
    res["nontrivial"] = sorted(nt)
    return res


HISTORIES = ("ops", "flood", "streams", "script", "steps", "msgs")


def _kind(text):
    return re.sub(r"[^A-Za-z ]", "", text)[:45]


def _sites(v, path=()):
    """Paths of the operation histories in a case."""
    if isinstance(v, dict):
        for k in sorted(v):
            if k in HISTORIES and isinstance(v[k], list):
                yield path + (k,)
            yield from _sites(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from _sites(x, path + (i,))


def reduce_case(part, case, text, wall=REDUCE_WALL_S):
    """Drop operations from the histories of a failing case for as long as it
    fails in the same way (delta debugging after Hypothesis' own shrinking,
    which spends its time elsewhere on long histories)."""
    end = time.time() + wall

    def attempt(c):
        if time.time() > end:
            return None
        out = run_case(part, c, Ctx())
        if out is not None and out[0] == "violation" and _kind(out[1]) == _kind(text):
            return out[1]
        return None

    again = True
    while again and time.time() < end:
        again = False
        for path in list(_sites(case)):
            try:
                size = len(functools.reduce(lambda v, k: v[k], path, case))
            except (KeyError, IndexError):
                continue
            n = max(1, size // 2)
            while n and time.time() < end:
                i = 0
                while True:
                    c = normalise(case)
                    lst = functools.reduce(lambda v, k: v[k], path, c)
                    if i >= len(lst):
                        break
                    del lst[i:i + n]
                    t = attempt(c)
                    if t is not None:
                        case, text, again = c, t, True
                    else:
                        i += n
                n //= 2
    return case, text


def shorten(case, limit=1200):
    s = jkey(case)
    if len(s) <= limit:
        return json.loads(s)
    return s[:limit] + "...(%d chars)" % len(s)


def load(pid):
    sys.path.insert(0, os.path.join(VERIF, "checks")) if os.path.join(VERIF, "checks") not in sys.path else None
    return importlib.import_module(pid.lower())


def derive(seed, *parts):
    h = hashlib.sha256(("%d/" % seed + "/".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # the code under test prints diagnostics


def findings(pid):
    """Recorded findings: lines `known: {json}`; `fixed:` lines suppress nothing."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == pid:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        rec = json.load(open(a.replay), object_hook=_dec)
        mod = load(rec["property"])
        part = [p for p in mod.PARTS if p.name == rec["part"]][0]
        out = run_case(part, rec["case"], Ctx())
        if out is None:
            print("replay: the property holds on this case")
            return 0
        if out[0] == "harness":
            print("harness error: " + out[1])
            return 3
        print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.abspath(a.replay)))
        print(out[1])
        return 1

    pid = a.pid
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    assert mod.PROPERTY == pid
    budget = 420 if tier == "quick" else 3000
    budget = float(os.environ.get("VERIF_BUDGET_S", budget))
    deadline = t0 + budget
    jobs = []
    rules = []
    for p in mod.PARTS:
        if a.part and p.name != a.part:
            continue
        total = max(1, int((p.quick if tier == "quick" else p.thorough) * a.scale))
        shards = min(WORKERS * 2, max(1, total // 5))
        rules.append("%s: %s" % (p.name, p.rule))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            jobs.append((pid, p.name, derive(seed, pid, p.name, s), n, deadline))
    # interleave so that every part makes progress early
    jobs.sort(key=lambda j: derive(0, j[1], j[2]))
    ctxm = mp.get_context("fork")
    import simcore  # noqa: F401  (import the code under test once, before forking)
    import hypothesis  # noqa: F401
    results = []
    failed = False
    pool = ctxm.Pool(WORKERS, initializer=_init_worker, maxtasksperchild=8)
    try:
        for r in pool.imap_unordered(_job, jobs):
            results.append(r)
            if a.v:
                print("  %-22s seed=%d n=%d nt=%d %.1fs" % (r["part"], r["seed"] % 1000, r["evaluations"],
                      len(r["nontrivial"]), time.time() - t0), file=sys.stderr)
            if r["fail"] or r["harness"]:
                failed = True
                break
    finally:
        pool.terminate()
        pool.join()

    per = {}
    for r in results:
        d = per.setdefault(r["part"], {"evaluations": 0, "nt": set(), "labels": {}, "samples": [], "skipped": 0})
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r["skipped"]
        d["nt"].update(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        d["samples"] += r["samples"][:max(0, 2 - len(d["samples"]))]
    viol = []
    harness = [r for r in results if r["harness"]]
    for r in results:
        if r["fail"]:
            rec = {"property": pid, "part": r["part"], "case": r["fail"]["case"], "message": r["fail"]["text"],
                   "seed": seed, "replay_cmd": "python3-vt /verif/harness/runner.py --replay <this file>"}
            h = hashlib.sha1(json.dumps(rec["case"], sort_keys=True).encode()).hexdigest()[:10]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, r["part"], h))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, sort_keys=True)
            viol.append((path, rec))
    known = []
    if not a.part:
        for kf in findings(pid):
            part = [p for p in mod.PARTS if p.name == kf["part"]][0] if kf.get("part") else None
            fn = getattr(mod, "known_" + kf["id"], None)
            still = fn() if fn else True
            if still:
                print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
                known.append(kf["id"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(len(d["nt"]) for d in per.values()),
            "rule": "; ".join(rules),
            "samples": [{"part": k, "case": s} for k, d in sorted(per.items()) for s in d["samples"]][:24],
            "parts": {k: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nt"]),
                          "labels": dict(sorted(d["labels"].items())), "not_run_out_of_time": d["skipped"]}
                      for k, d in sorted(per.items())},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if viol:
        ev["coverage"]["violation_details"] = [{"replay": p, "message": rec["message"][:600]} for p, rec in viol]
    if known:
        ev["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        print(json.dumps(ev["coverage"]["parts"], indent=1))
    if viol:
        # confirm in this fresh process before reporting
        path, rec = viol[0]
        part = [p for p in mod.PARTS if p.name == rec["part"]][0]
        sys.stdout.flush()
        save = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        out = None
        for _ in range(3):
            out = run_case(part, json.loads(json.dumps(rec["case"]), object_hook=_dec), Ctx())
            if out is not None and out[0] != "harness":
                break
        sys.stdout.flush()
        os.dup2(save, 1)
        if out is None or out[0] == "harness":
            print("harness error: failing case did not reproduce: %s" % rec["message"])
            print(out)
            return 3
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("part %s: %s" % (rec["part"], out[1]))
        return 1
    if harness:
        print("harness error in part %s:\n%s" % (harness[0]["part"], harness[0]["harness"]))
        print(harness[0].get("harness_case", ""))
        return 2
    if sum(d["evaluations"] for d in per.values()) == 0:
        print("harness error: nothing was evaluated")
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    # one module instance: checks import `runner`
    sys.modules["runner"] = sys.modules["__main__"]
    sys.exit(main())
