"""Bounded exhaustive explorer: shared driver of every check.

A check is a module in /verif/checks which defines

    PROPERTY  id of the property
    cases(tier) -> iterable of JSON-able cases, the whole bounded space, simplest first
    run_case(case) -> Obs  executes the case on the real code and compares with the model

`main(module)` enumerates all cases over worker processes, counts distinct model states,
transitions and traces, writes evidence/<id>.json and prints VIOLATION lines.
"""

from __future__ import annotations

import hashlib
import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = Path(os.environ.get("VERIF_REPO_SRC", "/repo/src"))
EVIDENCE = VERIF / "evidence"
CASE_SECONDS = float(os.environ.get("VERIF_CASE_SECONDS", "150"))  # processor time of one execution
CASE_WALL_SECONDS = 3 * CASE_SECONDS  # executions which wait for ever use no processor time
MAX_REPORTED = 5


class CaseTimeout(BaseException):
    """Raised by alarm when a single execution does not terminate."""


class Mismatch(Exception):
    """The implementation disagrees with the model."""

    def __init__(self, what, expected=None, got=None):
        super().__init__(what)
        self.what, self.expected, self.got = what, expected, got


class Obs:
    """What one execution covered."""

    __slots__ = ("states", "transitions", "traces", "outcome", "skipped")

    def __init__(self, states=(), transitions=1, traces=1, outcome=None, skipped=0):
        self.states = states  # hashable/str-able model states visited
        self.transitions = transitions
        self.traces = traces
        self.outcome = outcome  # observable outcome (to prove non-vacuity)
        self.skipped = skipped


def digest(obj) -> bytes:
    if not isinstance(obj, (str, bytes)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).digest()


def expect(cond, what, expected=None, got=None):
    if not cond:
        raise Mismatch(what, expected, got)


def expect_eq(got, expected, what):
    if got != expected:
        raise Mismatch(what, expected, got)


def _alarm(_sig, _frm):
    raise CaseTimeout


def _short(x, n=4000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...<cut>"


def run_guarded(module, case):
    """Run one case; return (obs | None, violation | None)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS)
    try:
        return module.run_case(case), None
    except Mismatch as e:
        return None, {"what": e.what, "expected": _short(e.expected), "got": _short(e.got)}
    except CaseTimeout:
        return None, {"what": f"execution did not terminate in {CASE_SECONDS} s"}
    except MemoryError:
        return None, {"what": "execution exhausted memory"}
    except RecursionError:
        return None, {"what": "execution exhausted recursion depth"}
    except Exception as e:  # noqa: BLE001 - any escape from the product is a violation
        return None, {
            "what": f"unexpected {type(e).__name__}: {_short(str(e), 500)}",
            "got": traceback.format_exc(limit=-12),
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


_MODULE = None


def _worker_init(module_name):
    global _MODULE
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import gc
    import importlib
    import logging

    logging.disable(logging.CRITICAL)

    _MODULE = importlib.import_module(module_name)
    gc.set_threshold(100_000, 20, 100)  # grammars and syntax trees are large: full collections cost more than the work


def _worker(batch):
    import gc

    gc.freeze()
    states, outcomes = set(), set()
    n = tr = sk = steps = 0
    violations = []
    for case in batch:
        obs, bad = run_guarded(_MODULE, case)
        n += 1
        if bad is not None:
            violations.append((case, bad))
            if len(violations) >= MAX_REPORTED or bad["what"].startswith("execution"):
                break
            continue
        tr += obs.traces
        steps += obs.transitions
        sk += obs.skipped
        states.update(digest(s) for s in obs.states)
        if obs.outcome is not None:
            outcomes.add(digest(obs.outcome))
    gc.unfreeze()
    return n, tr, steps, sk, states, outcomes, violations


def batched(it, size):
    it = iter(it)
    while chunk := list(itertools.islice(it, size)):
        yield chunk


def load_known(prop):
    path = VERIF / "known_findings.json"
    data = json.loads(path.read_text()) if path.exists() else {"findings": []}
    return [f for f in data["findings"] if f["property"] == prop]


def case_key(case):
    return json.dumps(case, sort_keys=True)


def main(module_name):
    import importlib

    sys.path.insert(0, str(VERIF))
    sys.path.insert(0, str(REPO_SRC))
    t0 = time.time()
    module = importlib.import_module(module_name)
    prop = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import pygerber

    assert Path(pygerber.__file__).resolve().is_relative_to(REPO_SRC.resolve()), (
        f"checking {pygerber.__file__}, not {REPO_SRC}"
    )
    EVIDENCE.mkdir(exist_ok=True)
    known = load_known(prop)
    workers = max(1, min(8, os.cpu_count() or 1))
    batch = getattr(module, "BATCH", 50)
    total = {"n": 0, "tr": 0, "steps": 0, "sk": 0}
    states, outcomes, violations = set(), set(), []
    samples = []

    def sampled(cases):
        for k, case in enumerate(cases):
            if k < 2 or (k & (k - 1)) == 0:
                if len(samples) < 12:
                    samples.append(case)
            yield case

    if hasattr(module, "setup"):
        module.setup(tier)
    broken = None
    ctx = get_context("fork")
    with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_worker_init,
                             initargs=(module_name,)) as pool:
        pending = set()
        source = batched(sampled(module.cases(tier)), batch)
        exhausted = stop = False
        try:
            while True:
                while not (exhausted or stop) and len(pending) < workers * 4 and len(violations) < MAX_REPORTED:
                    chunk = next(source, None)
                    if chunk is None:
                        exhausted = True
                        break
                    pending.add(pool.submit(_worker, chunk))
                if not pending:
                    break
                done = next(as_completed(pending))
                pending.discard(done)
                n, tr, steps, sk, st, oc, bad = done.result()
                total["n"] += n
                total["tr"] += tr
                total["steps"] += steps
                total["sk"] += sk
                states |= st
                outcomes |= oc
                violations.extend(bad)
                if len(violations) >= MAX_REPORTED or any("execution" in b["what"] for _, b in violations):
                    exhausted = False
                    for f in list(pending):
                        if f.cancel():
                            pending.discard(f)
                    source = iter(())
                    stop = True
        except BrokenProcessPool:
            broken = "a worker process was killed while executing the code under test"
    if broken:
        violations.append(({"broken": True}, {"what": broken}))
    reported, known_hits = [], {}
    for case, bad in violations:
        hit = next((f for f in known if f["case"] == case_key(case)), None)
        if hit is not None:
            known_hits[hit["what"]] = hit
        else:
            reported.append((case, bad))
    for f in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    replay_dir = EVIDENCE / "replay"
    replay_dir.mkdir(exist_ok=True)
    for old in replay_dir.glob(f"{prop}-*.json"):
        old.unlink()
    for k, (case, bad) in enumerate(reported[:MAX_REPORTED]):
        path = replay_dir / f"{prop}-{k}.json"
        path.write_text(json.dumps(
            {"property": prop, "module": module_name, "case": case, **bad,
             "replay": f"/opt/venv/bin/python {VERIF}/mc/replay.py {path}"},
            indent=1, default=repr))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {bad['what']}")
        for key in ("expected", "got"):
            if bad.get(key) not in (None, "None"):
                print(f"  {key}: {_short(bad[key], 1200)}")
        print(f"  case: {_short(json.dumps(case, default=repr), 1500)}")
    bounds = getattr(module, "bounds", lambda t: "")(tier)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": total["steps"],
            "traces_validated_against_impl": total["tr"],
            "cases": total["n"],
            "distinct_outcomes": len(outcomes),
            "undecided_probes_skipped": total["sk"],
            "bounds": bounds,
            "exhaustive": exhausted and not violations,
            "samples": samples,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=repr))
    print(f"{prop} tier={tier} cases={total['n']} states={len(states)} "
          f"transitions={total['steps']} traces={total['tr']} outcomes={len(outcomes)} "
          f"violations={len(reported)} wall={evidence['wall_s']}s")
    sys.stdout.flush()
    return 1 if reported else 0
