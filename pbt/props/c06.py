"""No call changes what it was given, or what any later call returns."""
import copy
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved


@st.composite
def histories(draw):
    """Objects that are shared by a sequence of calls."""
    n = draw(gen.phases(3))
    n_groups = draw(st.integers(1, 3))
    pool = {
        "ccd": [draw(gen.ccds(n)) for _ in range(draw(st.integers(1, 2)))],
        "roe": [
            draw(gen.roes(n, kinds=("standard", "standard", "injection"), away=st.booleans()))
            for _ in range(draw(st.integers(1, 3)))
        ],
        # Species can be members of more than one list
        "traps": [draw(gen.group(("instant", "slow"), 2)) for _ in range(n_groups)],
        "image": [draw(gen.images(6, 3)) for _ in range(draw(st.integers(1, 2)))],
    }

    def direction():
        return {
            "ccd": draw(st.integers(0, len(pool["ccd"]) - 1)),
            "roe": draw(st.integers(0, len(pool["roe"]) - 1)),
            "traps": draw(
                st.lists(st.integers(0, n_groups - 1), min_size=1, max_size=2)
            ),
            "express": draw(st.integers(0, 4)),
            "offset": draw(st.sampled_from([0, 0, 2])),
            "style": draw(gen.styles()),
        }

    ops = []
    for _ in range(draw(st.integers(2, 7))):
        kind = draw(
            st.sampled_from(
                ["add", "add", "add", "remove", "plan", "density", "well", "flags", "other"]
            )
        )
        op = {"op": kind}
        if kind in ("add", "remove"):
            op["image"] = draw(st.integers(0, len(pool["image"]) - 1))
            which = draw(st.sampled_from(["p", "s", "ps", "p", "s", "ps", ""]))
            if "p" in which:
                op["parallel"] = direction()
            if "s" in which:
                op["serial"] = direction()
            if kind == "remove":
                op["iterations"] = draw(st.integers(0, 2))
        elif kind == "plan":
            op["roe"] = draw(st.integers(0, len(pool["roe"]) - 1))
            op["pixels"] = draw(st.integers(1, 9))
            op["express"] = draw(st.integers(0, 5))
            op["offset"] = draw(st.integers(0, 3))
        elif kind == "density":
            op["group"] = draw(st.integers(0, n_groups - 1))
            op["density"] = draw(gen.densities())
        elif kind == "well":
            op["ccd"] = draw(st.integers(0, len(pool["ccd"]) - 1))
            op["set"] = draw(
                st.sampled_from(
                    [
                        {"full_well": 1234.5},
                        {"power": 0.7},
                        {"notch": 20.0},
                        {"full_well": [900.0 + i for i in range(n)]},
                        {"power": [0.5 + 0.1 * i for i in range(n)]},
                        {"notch": [3.0 * i for i in range(n)]},
                    ]
                )
            )
        elif kind == "flags":
            op["roe"] = draw(st.integers(0, len(pool["roe"]) - 1))
            op["between"] = draw(st.booleans())
        else:
            op["what"] = draw(st.sampled_from(["poisson", "preset", "pump"]))
        ops.append(op)
    if not any(o["op"] in ("add", "remove") for o in ops):
        ops.append({"op": "add", "image": 0, "parallel": direction()})
    return {"pool": pool, "ops": ops}


def seen(traps, roes, ccds, images):
    """Everything about the shared objects that a user can look at."""
    return {
        "traps": [
            [(type(t).__name__, t.density, t.release_timescale, t.capture_timescale) for t in g]
            for g in traps
        ],
        "roe": [
            (
                list(r.dwell_times),
                r.empty_traps_between_columns,
                r.empty_traps_for_first_transfers,
                r.force_release_away_from_readout,
                getattr(r, "n_pixel_transfers", "-"),
                r.n_phases,
                r.express_matrix_dtype.__name__,
                [
                    [
                        (
                            bool(f.is_high),
                            int(f.capture_from_which_pixel),
                            [int(i) for i in f.release_to_which_pixels],
                            [float(i) for i in f.release_fraction_to_pixel],
                        )
                        for f in s
                    ]
                    for s in r.clock_sequence
                ],
            )
            for r in roes
        ],
        "ccd": [
            (
                list(c.fraction_of_traps_per_phase),
                list(c.full_well_depth),
                list(c.well_notch_depth),
                list(c.well_fill_power),
            )
            for c in ccds
        ],
        "image": [i.tolist() for i in images],
    }


SET = {"full_well": "full_well_depth", "power": "well_fill_power", "notch": "well_notch_depth"}


def run_history(ac, case):
    pool = copy.deepcopy(case["pool"])
    ccds = [b.ccd(ac, c) for c in pool["ccd"]]
    roes = [b.roe(ac, r) for r in pool["roe"]]
    traps = [[b.trap(ac, s) for s in g] for g in pool["traps"]]
    images = [arr(i) for i in pool["image"]]
    results = []
    effect = 0

    def shared(d, prefix):
        return {
            prefix + "_ccd": ccds[d["ccd"]],
            prefix + "_roe": roes[d["roe"]],
            prefix + "_traps": [traps[i] for i in d["traps"]],
            prefix + "_express": d["express"],
            prefix + "_offset": d["offset"],
        }

    def fresh(d, prefix):
        return b.direction(
            ac,
            {
                "ccd": pool["ccd"][d["ccd"]],
                "roe": pool["roe"][d["roe"]],
                "groups": [pool["traps"][i] for i in d["traps"]],
                "express": d["express"],
                "offset": d["offset"],
                "style": d["style"],
            },
            prefix,
        )

    for number, op in enumerate(case["ops"]):
        kind = op["op"]
        if kind in ("add", "remove"):
            before = seen(traps, roes, ccds, images)
            kw, kw_fresh = {}, {}
            for prefix in ("parallel", "serial"):
                if prefix in op:
                    kw.update(shared(op[prefix], prefix))
                    kw_fresh.update(fresh(op[prefix], prefix))
            image = images[op["image"]]
            call = ac.add_cti
            if kind == "remove":
                kw["iterations"] = kw_fresh["iterations"] = op["iterations"]
                call = ac.remove_cti
            lists = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
            out = call(image=image, **kw)
            after = seen(traps, roes, ccds, images)
            for what in before:
                check(
                    before[what] == after[what],
                    "call %d (%s) changed its %s" % (number, kind, what),
                    "before %s" % (before[what],),
                    "after %s" % (after[what],),
                )
            for k, v in lists.items():
                check(
                    len(v) == len(kw[k]) and all(x is y for x, y in zip(v, kw[k])),
                    "call %d (%s) changed the list %s" % (number, kind, k),
                )
            expect = call(image=arr(pool["image"][op["image"]]), **kw_fresh)
            close(
                out,
                expect,
                "call %d (%s) with objects that have been used before" % (number, kind),
                1e-12,
                max(1e-300, float(image.max())),
            )
            if moved(image, out):
                effect += 1
            results.append((number, out, np.array(out)))
        elif kind == "plan":
            roe = roes[op["roe"]]
            args = dict(pixels=op["pixels"], express=op["express"], offset=op["offset"])
            name = "express_matrix_and_monitor_traps_matrix_from_pixels_and_express"
            one = getattr(roe, name)(**args)
            two = getattr(b.roe(ac, pool["roe"][op["roe"]]), name)(**args)
            for x, y in zip(one, two):
                close(x, y, "call %d: the express plan" % number, 1e-12)
        elif kind == "density":
            for t, s in zip(traps[op["group"]], pool["traps"][op["group"]]):
                t.density = op["density"]
                s["density"] = op["density"]
        elif kind == "well":
            for k, v in op["set"].items():
                setattr(ccds[op["ccd"]], SET[k], copy.deepcopy(v))
                pool["ccd"][op["ccd"]][k] = v
        elif kind == "flags":
            roes[op["roe"]].empty_traps_between_columns = op["between"]
            pool["roe"][op["roe"]]["between"] = op["between"]
        elif op["what"] == "poisson":
            ac.TrapInstantCapture.poisson_trap(trap=traps[0], shape=(5, 2), seed=3)
        elif op["what"] == "preset":
            ac.model_for_HST_ACS(date=2455000.0)
        else:
            n = len(pool["ccd"][0]["fractions"])
            ac.add_cti(
                image=images[0],
                parallel_ccd=ccds[0],
                parallel_roe=ac.ROETrapPumping(dwell_times=[1.0] * (2 * n), n_pumps=2),
                parallel_traps=traps[0],
                parallel_window_range=0,
            )

    # Earlier results stay as they were, and belong to the caller
    for number, out, copied in results:
        check(
            np.array_equal(np.asarray(out), copied),
            "the result of call %d was changed by a later call" % number,
        )
        out[...] = -1.0
    for i, image in enumerate(images):
        check(
            np.array_equal(image, arr(pool["image"][i])),
            "writing to a result changed an input image",
        )
    n_calls = sum(o["op"] in ("add", "remove") for o in case["ops"])
    return effect > 0 and n_calls > 1, ["%d calls" % n_calls]


# ----------------------------------------------------------------------------
# Separate objects stay separate


@st.composite
def defaults(draw):
    """Objects made with default arguments do not share any state."""
    return {
        "image": draw(gen.images(5, 2)),
        "changed": draw(st.sampled_from(["dwell", "fractions", "full_well", "traps", "none"])),
        "trap": draw(gen.instant_trap()),
        "full_well": draw(gen.log_float(2.5, 5)),
    }


def run_defaults(ac, case):
    image = arr(case["image"])

    def call():
        return np.asarray(
            ac.add_cti(
                image=image.copy(),
                parallel_ccd=ac.CCD(full_well_depth=case["full_well"]),
                parallel_traps=b.trap(ac, case["trap"]),
            )
        )

    first = call()
    # Use and change other objects that were made from the same defaults
    roe, ccd = ac.ROE(), ac.CCD()
    if case["changed"] == "dwell":
        roe.dwell_times = [2.5]
    elif case["changed"] == "fractions":
        ccd.fraction_of_traps_per_phase = [0.5]
    elif case["changed"] == "full_well":
        ccd.full_well_depth = 10.0
    ac.add_cti(
        image=image.copy(),
        parallel_ccd=ccd,
        parallel_roe=roe,
        parallel_traps=[ac.Trap(density=3.0)],
        serial_ccd=ccd,
        serial_roe=roe,
        serial_traps=[ac.Trap(density=3.0)],
        parallel_offset=3,
        serial_express=1,
    )
    close(call(), first, "a call with defaults, after other calls", 1e-12)
    explicit = np.asarray(
        ac.add_cti(
            image=image.copy(),
            parallel_ccd=ac.CCD(full_well_depth=case["full_well"]),
            parallel_roe=ac.ROE(dwell_times=[1]),
            parallel_traps=b.trap(ac, case["trap"]),
            parallel_express=0,
            parallel_offset=0,
            parallel_window_range=range(image.shape[0]),
            serial_window_range=range(image.shape[1]),
            time_window_range=range(image.shape[0]),
        )
    )
    close(explicit, first, "defaults written out", 1e-12)
    return moved(image, first), [case["changed"]]


# ----------------------------------------------------------------------------
# Calls at the same time


def in_threads(jobs):
    """The results (or exceptions) of functions that are called all at once."""
    results = [None] * len(jobs)
    start = threading.Barrier(len(jobs))

    def work(i):
        start.wait()
        try:
            results[i] = jobs[i]()
        except Exception as e:
            results[i] = e

    interval = sys.getswitchinterval()
    # Change over to another thread as often as possible
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    return results


@st.composite
def simultaneous(draw):
    case = draw(histories())
    calls = [o for o in case["ops"] if o["op"] in ("add", "remove")]
    return {"pool": case["pool"], "ops": calls, "times": draw(st.integers(1, 3))}


def run_simultaneous(ac, case):
    """Calls in several threads that share everything, against one after another."""
    pool = case["pool"]

    def made():
        return {
            "ccd": [b.ccd(ac, c) for c in pool["ccd"]],
            "roe": [b.roe(ac, r) for r in pool["roe"]],
            "traps": [[b.trap(ac, s) for s in g] for g in pool["traps"]],
            "image": [arr(i) for i in pool["image"]],
        }

    def job(objects, op):
        kw = {}
        for prefix in ("parallel", "serial"):
            if prefix in op:
                d = op[prefix]
                kw[prefix + "_ccd"] = objects["ccd"][d["ccd"]]
                kw[prefix + "_roe"] = objects["roe"][d["roe"]]
                kw[prefix + "_traps"] = [objects["traps"][i] for i in d["traps"]]
                kw[prefix + "_express"] = d["express"]
                kw[prefix + "_offset"] = d["offset"]
        call = ac.add_cti
        if op["op"] == "remove":
            kw["iterations"] = op["iterations"]
            call = ac.remove_cti
        return lambda: np.array(call(image=objects["image"][op["image"]], **kw))

    expect = [job(made(), op)() for op in case["ops"]]
    objects = made()
    jobs = [job(objects, op) for op in case["ops"] for _ in range(case["times"])]
    if len(jobs) == 1:
        jobs = jobs * 2
    results = in_threads(jobs)
    effect = False
    for i, out in enumerate(results):
        k = min(i // case["times"], len(expect) - 1)
        if isinstance(out, Exception):
            raise out
        scale = max(1e-300, float(objects["image"][case["ops"][k]["image"]].max()))
        close(
            out,
            expect[k],
            "call %d (%s) at the same time as %d others" % (k, case["ops"][k]["op"], len(jobs) - 1),
            1e-12,
            scale,
        )
        effect = effect or moved(objects["image"][case["ops"][k]["image"]], out)
    for i, image in enumerate(objects["image"]):
        check(np.array_equal(image, arr(pool["image"][i])), "an input image was changed")
    return effect, ["%d threads" % len(jobs)]


# ----------------------------------------------------------------------------
# Lists of settings belong to one object


MAKE = {
    "dwell_times": ("ROE", "ROEChargeInjection", "ROETrapPumping"),
    "fraction_of_traps_per_phase": ("CCD",),
    "full_well_depth": ("CCD",),
    "well_fill_power": ("CCD",),
    "well_notch_depth": ("CCD",),
    "well_bloom_level": ("CCD",),
}


@st.composite
def lists(draw):
    name = draw(st.sampled_from(sorted(MAKE)))
    cls = draw(st.sampled_from(MAKE[name]))
    n = 2 * draw(st.integers(1, 2)) if cls == "ROETrapPumping" else draw(st.integers(1, 3))
    values = [draw(st.floats(0.1, 0.9)) for _ in range(n)]
    return {
        "name": name,
        "class": cls,
        "values": draw(st.one_of(st.none(), st.just(values))),
        "at": draw(st.integers(0, n - 1)),
        "new": draw(st.floats(0.1, 0.9)),
        "later": draw(st.booleans()),
        "who": draw(st.sampled_from(["object", "object", "list"])),
        "image": draw(gen.images(4, 2)),
    }


def run_lists(ac, case):
    """What is done to the settings of one object, in place, changes no other."""
    name, values = case["name"], case["values"]
    given = None if values is None else list(values)

    def make(v):
        n = 1 if v is None else len(v)
        kw = {}
        if case["class"] == "CCD" and name != "fraction_of_traps_per_phase":
            kw["fraction_of_traps_per_phase"] = [1.0 / n] * n
        if v is None:
            return getattr(ac, case["class"])(**kw)
        if case["later"]:
            out = getattr(ac, case["class"])(**kw)
            setattr(out, name, v)
            if name == "fraction_of_traps_per_phase":
                # (another number of phases)
                out.full_well_depth, out.well_notch_depth, out.well_fill_power = 1e4, 0.0, 0.58
            return out
        kw[name] = v
        return getattr(ac, case["class"])(**kw)

    def image_from(obj):
        kw = {"parallel_traps": [ac.Trap(20.0, 2.0)], "parallel_ccd": ac.CCD()}
        if case["class"] == "CCD":
            n = obj.n_phases
            kw["parallel_roe"] = ac.ROE(dwell_times=[1.0] * n)
            kw["parallel_ccd"] = obj
        else:
            kw["parallel_roe"] = obj
            kw["parallel_ccd"] = ac.CCD(fraction_of_traps_per_phase=[1.0 / obj.n_phases] * obj.n_phases)
            if case["class"] == "ROETrapPumping":
                kw["parallel_window_range"] = 0
        return np.asarray(ac.add_cti(image=arr(case["image"]), **kw))

    before = make(given)
    expect = copy.deepcopy(getattr(before, name))
    picture = image_from(before)
    victim = make(given)
    own = getattr(victim, name) if case["who"] == "object" or given is None else given
    saved = list(own)
    try:
        at = case["at"] % len(own)
        own[at] = case["new"]
        check(list(getattr(before, name)) == expect, "another object's %s became %s" % (name, getattr(before, name)))
        after = make(None if values is None else list(values))
        check(list(getattr(after, name)) == expect, "a new object's %s is %s" % (name, getattr(after, name)))
        close(image_from(before), picture, "an object made before", 1e-12)
        close(image_from(after), picture, "an object made after", 1e-12)
    finally:
        own[:] = saved
    return case["new"] != saved[at], [name, case["class"], "default" if values is None else "given"]


RULE = (
    "random sequences of calls and permitted changes to shared wells, clocking, traps "
    "and images, each call compared with the same call on new objects; non-trivial if "
    "there are several calls and CTI changed an image"
)
SUBS = [
    Sub("histories", lambda t: histories(), run_history, RULE, 1200, 20000),
    Sub("threads", lambda t: simultaneous(), run_simultaneous, RULE, 300, 6000),
    Sub("defaults", lambda t: defaults(), run_defaults, RULE, 400, 4000),
    Sub("lists", lambda t: lists(), run_lists, RULE, 800, 8000),
]
