"""
Decide one property:  python -m pbt.runner C01 [--replay FILE]

Builds the extensions from /repo's working tree, runs the saved regression cases
and listed findings, then generated cases in parallel workers, and writes
evidence/<id>.json. Exit 0: held. 1: VIOLATION line. 2: could not decide.
"""
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from pbt import loader

VERIF = loader.VERIF
PY = loader.PYTHON


def write_replay(prop, sub, case, detail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    from pbt.worker import case_hash

    path = os.path.join(d, "%s-%s-%s.json" % (prop, sub, case_hash(sub, case)))
    with open(path, "w") as f:
        json.dump(
            {"property": prop, "sub": sub, "case": case, "detail": detail}, f, indent=1
        )
    return path


def run_saved(build, flavour, saved, scratch, timeout=300):
    """(return code, output) of one saved case in its own process."""
    path = os.path.join(scratch, "saved.json")
    with open(path, "w") as f:
        json.dump(saved, f)
    p = subprocess.run(
        [PY, "-m", "pbt.replay", path],
        cwd=VERIF,
        env=loader.run_environment(build, flavour),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=timeout,
    )
    return p.returncode, p.stdout


def numbers(x):
    """Simpler variants of non-negative numbers in nested lists, one at a time."""
    if isinstance(x, list):
        for i, v in enumerate(x):
            for w in numbers(v):
                yield x[:i] + [w] + x[i + 1 :]
    elif x not in (0, 1):
        yield 0.0
        yield 1.0


def shorter(x):
    """Some of the items of a list, but at least one."""
    n = len(x)
    for k in (n // 2, 1):
        if 0 < k < n:
            for i in range(0, n, k):
                yield x[:i] + x[i + k :]


def smaller(case):
    """Simpler cases that are within the domain if this one is."""
    for name in ("parallel", "serial"):
        d = case.get(name)
        if not isinstance(d, dict) or "groups" not in d:
            continue
        other = {"parallel": "serial", "serial": "parallel"}[name]
        if case.get(other) is not None:
            yield {k: v for k, v in case.items() if k != name}
        for groups in shorter(d["groups"]):
            yield dict(case, **{name: dict(d, groups=groups)})
        for i, g in enumerate(d["groups"]):
            for h in shorter(g):
                groups = d["groups"][:i] + [h] + d["groups"][i + 1 :]
                yield dict(case, **{name: dict(d, groups=groups)})
        if d.get("express"):
            yield dict(case, **{name: dict(d, express=0)})
    if isinstance(case.get("steps"), list):
        for steps in shorter(case["steps"]):
            yield dict(case, steps=steps)
    if isinstance(case.get("group"), list):
        for g in shorter(case["group"]):
            yield dict(case, group=g)
    if isinstance(case.get("image"), list):
        if case["image"] and all(isinstance(r, list) for r in case["image"]):
            zero = [[0.0] * len(r) for r in case["image"]]
            if zero != case["image"]:
                yield dict(case, image=zero)
        for image in numbers(case["image"]):
            yield dict(case, image=image)


def shrink_crash(build, flavour, violation, scratch, seconds=90):
    """
    Greedily simplify, in place, a case that kills its process (Hypothesis shrinks
    in-process, so it cannot).
    """
    deadline = time.time() + seconds

    def attempt(job):
        i, case = job
        if time.time() > deadline:
            return None
        d = os.path.join(scratch, "shrink-%d" % i)
        os.makedirs(d, exist_ok=True)
        try:
            code, out = run_saved(build, flavour, dict(violation, case=case), d, 60)
        except subprocess.TimeoutExpired:
            return None
        return (case, out) if code < 0 else None

    with ThreadPoolExecutor(8) as pool:
        progress = True
        while progress and time.time() < deadline:
            progress = False
            candidates = smaller(violation["case"])
            while time.time() < deadline:
                batch = list(itertools.islice(candidates, 8))
                if not batch:
                    break
                found = [r for r in pool.map(attempt, enumerate(batch)) if r]
                if found:
                    violation["case"] = found[0][0]
                    violation["detail"] = "kills the process\n" + found[0][1][-3000:]
                    progress = True
                    break


def findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def regressions(prop):
    path = os.path.join(VERIF, "pbt", "regress", prop + ".json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def main():
    start = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        code = decide(prop, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, seed, scratch, start):
    loader.add_hypothesis()
    from pbt.worker import module

    mod = module(prop)
    flavour = getattr(mod, "FLAVOUR", "plain")
    try:
        build = loader.build(flavour)
    except Exception as e:
        print("ERROR: %s" % e)
        return 2

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            saved = json.load(f)
        code, out = run_saved(build, flavour, saved, scratch)
        print(out.strip())
        if code == 1 or code < 0:
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
            return 1
        return 0 if code == 0 else 2

    # Saved cases: defects that were repaired must not return, listed findings
    # are reported as such
    violation = None
    n_saved = 0
    jobs = [("regression", r) for r in regressions(prop)]
    for f in findings():
        if f["property"] == prop and f["status"] == "known":
            jobs.append(("known", f))
    if os.environ.get("PBT_SKIP_SAVED"):
        # (for experiments)
        jobs = []
    for kind, job in jobs:
        saved = {"property": prop, "sub": job["sub"], "case": job["case"]}
        code, out = run_saved(build, flavour, saved, scratch)
        n_saved += 1
        if code == 2:
            print("ERROR: " + out)
            return 2
        failed = code == 1 or code < 0
        if kind == "known":
            if failed:
                print("KNOWN-FINDING: property=%s %s" % (prop, job["what"]))
            else:
                print("note: listed finding no longer fails: %s" % job["what"])
        elif failed:
            violation = dict(saved, detail=out)
            break

    n_workers = int(os.environ.get("PBT_WORKERS", "8"))
    budget = 300 if tier == "quick" else float(os.environ.get("PBT_BUDGET", "3000"))
    results = []
    crashed = False
    if violation is None:
        procs = []
        for w in range(n_workers):
            log = open(os.path.join(scratch, "log-%d" % w), "w")
            procs.append(
                subprocess.Popen(
                    [PY, "-m", "pbt.worker", prop, tier, str(seed), str(w)]
                    + [str(n_workers), scratch, str(budget)],
                    cwd=VERIF,
                    env=loader.run_environment(build, flavour),
                    stdout=log,
                    stderr=log,
                    start_new_session=True,
                )
            )
        hard = time.time() + (600 if tier == "quick" else budget + 900)
        error = None
        pending = set(range(n_workers))
        try:
            # An error of one worker does not stop the others: a violation counts
            while pending and violation is None:
                time.sleep(0.05)
                for w in sorted(pending):
                    code = procs[w].poll()
                    if code is None:
                        continue
                    pending.discard(w)
                    path = os.path.join(scratch, "result-%d.json" % w)
                    if os.path.exists(path):
                        with open(path) as f:
                            r = json.load(f)
                        results.append(r)
                        if r["error"]:
                            error = error or r["error"]
                        elif r["violation"]:
                            violation = r["violation"]
                        continue
                    with open(os.path.join(scratch, "log-%d" % w)) as f:
                        log = f.read()[-3000:]
                    if code < 0 and -code in (
                        signal.SIGSEGV,
                        signal.SIGABRT,
                        signal.SIGBUS,
                        signal.SIGFPE,
                        signal.SIGILL,
                    ):
                        # The code under test brought the process down
                        with open(os.path.join(scratch, "current-%d.json" % w)) as f:
                            violation = json.load(f)
                        violation["detail"] = "killed by signal %d\n%s" % (-code, log)
                        crashed = True
                    else:
                        error = error or "worker %d ended with %s\n%s" % (w, code, log)
                if time.time() > hard and pending:
                    error = error or "workers did not finish in time"
                    break
        finally:
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            for p in procs:
                p.wait()
        if error is not None and violation is None:
            print("ERROR: " + error)
            return 2

    if crashed:
        shrink_crash(build, flavour, violation, scratch)

    hashes, subs, tags, samples = set(), {}, {}, []
    evaluations = n_saved
    skipped = 0
    for r in results:
        evaluations += r["evaluations"]
        skipped += r["skipped"]
        hashes.update(r["nontrivial"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r["subs"].items():
            s = subs.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            for key in s:
                s[key] += v[key]
    seen = set()
    for r in results:
        for s in r["samples"]:
            if s["sub"] not in seen:
                seen.add(s["sub"])
                samples.append(s)
    if violation is not None and not samples:
        samples = [{"sub": violation["sub"], "case": violation["case"]}]

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS),
            "samples": samples,
            "by_sub_check": subs,
            "classes": dict(sorted(tags.items())),
            "saved_cases": n_saved,
            "not_run_for_time": skipped,
        },
        "wall_s": round(time.time() - start, 2),
        "violations": 0 if violation is None else 1,
    }
    write_evidence(prop, evidence)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, tier, seed, evaluations, len(hashes), time.time() - start)
    )
    for k in sorted(subs):
        print("  %-24s %6d cases %6d non-trivial" % (k, subs[k]["evaluations"], subs[k]["nontrivial"]))
    if violation is not None:
        path = write_replay(
            prop, violation["sub"], violation["case"], violation["detail"]
        )
        print(violation["sub"] + ": " + violation["detail"])
        print("case: " + json.dumps(violation["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def write_evidence(prop, evidence):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + ".tmp", path)


if __name__ == "__main__":
    main()
