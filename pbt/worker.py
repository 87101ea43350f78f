"""
One worker process: runs its share of the generated cases of one property.

argv: property tier seed worker n_workers scratch_dir time_budget
Leaves scratch_dir/result-<worker>.json.
"""
import copy
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from pbt import loader

loader.add_hypothesis()

import hypothesis
import hypothesis.internal.conjecture.engine as engine
from hypothesis import HealthCheck, Phase, given, settings

from pbt import build_objs
from pbt.core import Violation

engine.MAX_SHRINKING_SECONDS = 40


def module(prop):
    return importlib.import_module("pbt.props." + prop.lower())


def blame(exc):
    """Was the exception raised in (or below) the code under test?"""
    tb = exc.__traceback__
    root = os.path.join(os.path.realpath(loader.REPO), "arcticpy") + os.sep
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if os.path.realpath(name).startswith(root) or name.endswith(".pyx"):
            return True
        tb = tb.tb_next
    return False


def judge(ac, sub, case):
    """(verdict, detail): ok / violation / error, and how large a difference"""
    try:
        nontrivial, tags = sub.run(ac, case)
        return "ok", (bool(nontrivial), list(tags)), None
    except Violation as e:
        return "violation", str(e), e.error
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        if blame(e):
            return (
                "violation",
                "raised on valid input:\n" + "".join(traceback.format_exception(e)[-6:]),
                None,
            )
        return "error", "".join(traceback.format_exception(e)), None


def run_case(ac, sub, case):
    """
    (verdict, detail): ok / violation / error

    A difference between numbers that the independent model also shows when each
    of its operations has a rounding error is not a violation. (The volume of
    next to no electrons is noticeable, so it matters whether traps take all the
    charge of a pixel, or all but 1e-16 of it.)
    """
    verdict, detail, error = judge(ac, sub, copy.deepcopy(case))
    if verdict == "violation" and error is not None:
        if 30 * build_objs.sensitivity(case, error / 30) >= error:
            return "ok", (False, ["decided by rounding errors, not judged"])
    return verdict, detail


def derive(*parts):
    return int.from_bytes(
        hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big"
    )


def case_hash(sub, case):
    return hashlib.sha256(
        (sub + json.dumps(case, sort_keys=True)).encode()
    ).hexdigest()[:16]


class Stop(Exception):
    pass


def main():
    prop, tier, seed, worker, n_workers, scratch, budget = sys.argv[1:8]
    worker, n_workers, budget = int(worker), int(n_workers), float(budget)
    deadline = time.time() + budget
    ac = loader.load()
    mod = module(prop)
    current_path = os.path.join(scratch, "current-%d.json" % worker)
    result = {
        "evaluations": 0,
        "skipped": 0,
        "nontrivial": [],
        "tags": {},
        "samples": [],
        "violation": None,
        "error": None,
        "subs": {},
    }

    # Only some of the sub-checks, for debugging
    only = os.environ.get("PBT_ONLY")
    subs = [s for s in mod.SUBS if not only or s.name in only.split(",")]
    current = open(current_path, "w")

    for sub in subs:
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, -(-n // n_workers))
        n = int(n * float(os.environ.get("PBT_SCALE", "1"))) or 1
        last = {}
        count = result["subs"].setdefault(sub.name, {"evaluations": 0, "nontrivial": 0})
        seen = set()

        def body(case):
            if time.time() > deadline and not last:
                result["skipped"] += 1
                return
            text = json.dumps({"property": prop, "sub": sub.name, "case": case})
            current.seek(0)
            current.truncate()
            current.write(text)
            current.flush()
            verdict, detail = run_case(ac, sub, case)
            if not last:
                result["evaluations"] += 1
                count["evaluations"] += 1
            if verdict == "ok":
                if last:
                    return
                nontrivial, tags = detail
                for t in tags:
                    k = sub.name + ":" + t
                    result["tags"][k] = result["tags"].get(k, 0) + 1
                if nontrivial:
                    h = case_hash(sub.name, case)
                    if h not in seen:
                        seen.add(h)
                        count["nontrivial"] += 1
                        result["nontrivial"].append(h)
                        if len(seen) in (3, 30):
                            result["samples"].append({"sub": sub.name, "case": case})
                return
            if verdict == "error":
                last["error"] = detail
                last["case"] = case
                raise Stop("harness error")
            last["case"] = case
            last["detail"] = detail
            raise Violation(detail)

        test = hypothesis.seed(derive(seed, prop, sub.name, worker))(
            settings(
                max_examples=n,
                deadline=None,
                database=None,
                derandomize=False,
                phases=[Phase.generate, Phase.shrink],
                report_multiple_bugs=False,
                print_blob=False,
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )(given(sub.strategy(tier))(body))
        )
        sys.stdout.flush()
        try:
            test()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            if "error" in last:
                result["error"] = last["error"] + "\ncase: " + json.dumps(last["case"])
            elif "detail" in last:
                result["violation"] = {
                    "property": prop,
                    "sub": sub.name,
                    "case": last["case"],
                    "detail": last["detail"],
                }
            else:
                result["error"] = "".join(traceback.format_exception(e))
            break

    with open(os.path.join(scratch, "result-%d.tmp" % worker), "w") as f:
        json.dump(result, f)
    os.rename(
        os.path.join(scratch, "result-%d.tmp" % worker),
        os.path.join(scratch, "result-%d.json" % worker),
    )


if __name__ == "__main__":
    main()
