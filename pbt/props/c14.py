"""The different descriptions of traps agree wherever they describe the same thing."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved


# ----------------------------------------------------------------------------
# Following times or fill fractions


@st.composite
def clouds(draw, max_steps=14):
    n = draw(st.integers(1, max_steps))
    size = st.one_of(st.just(0.0), gen.log_float(0, 5), gen.log_float(-3, 1))
    dwell = gen.log_float(-1.5, 1.5)
    return [[draw(size), draw(dwell)] for _ in range(n)]


@st.composite
def tracked(draw):
    return {
        "traps": draw(st.lists(gen.instant_trap(), min_size=1, max_size=3)),
        "ccd": draw(gen.ccds(1)),
        "steps": draw(clouds()),
    }


def run_tracked(ac, case):
    ccd = b.ccd(ac, case["ccd"])
    fill = ccd.well_filling_function(0)
    make = lambda cls: cls(
        traps=[b.trap(ac, s) for s in case["traps"]], max_n_transfers=len(case["steps"])
    )
    one, two = make(ac.TrapManagerInstantCapture), make(ac.TrapManagerTrackTime)
    scale = sum(s["density"] for s in case["traps"])
    caught = False
    for i, (n, dwell) in enumerate(case["steps"]):
        x = one.n_electrons_released_and_captured(n, fill, dwell_time=dwell)
        y = two.n_electrons_released_and_captured(n, fill, dwell_time=dwell)
        check(
            abs(x - y) <= 1e-7 * max(scale, n),
            "step %d: %r electrons by fill fraction, %r by time elapsed" % (i, x, y),
        )
        t = one.n_trapped_electrons_from_watermarks(one.watermarks)
        u = two.n_trapped_electrons_from_watermarks(two.watermarks)
        check(
            abs(t - u) <= 1e-7 * max(scale, n),
            "step %d: %r trapped by fill fraction, %r by time elapsed" % (i, t, u),
        )
        caught = caught or t > 0
    return caught and len(case["steps"]) > 1, ["%d species" % len(case["traps"])]


# ----------------------------------------------------------------------------
# A narrow continuum of lifetimes


@st.composite
def narrow(draw):
    case = draw(
        gen.cti_cases(
            max_rows=4,
            max_cols=1,
            serial=False,
            kinds=("instant",),
            max_phases=2,
            max_groups=1,
            max_species=2,
        )
    )
    case["sigma"] = draw(st.sampled_from([0.01, 0.003, 0.03]))
    for t in case["parallel"]["groups"][0]:
        t["tau"] = draw(gen.log_float(-0.5, 1.5))
    # So that small differences stay small
    case["parallel"]["ccd"]["power"] = draw(st.sampled_from([0.8, 1.0]))
    return case


def run_narrow(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    new = copy.deepcopy(case)
    for t in new["parallel"]["groups"][0]:
        t["kind"] = "continuum"
        t["sigma"] = case["sigma"]
    close(
        b.add(ac, new),
        out,
        "a continuum of lifetimes of width %g, against a single lifetime" % case["sigma"],
        20 * case["sigma"] ** 2,
        max(image.max(), 1e-300),
    )
    return moved(image, out), []


# ----------------------------------------------------------------------------
# Fast capture


@st.composite
def fast(draw):
    case = draw(gen.supported(max_rows=7, max_cols=3, kinds=("slow",)))
    # Some of the species have instant capture, the others stay as they are
    some = False
    for name in ("parallel", "serial"):
        if name in case:
            for g in case[name]["groups"]:
                for t in g:
                    if draw(st.integers(0, 2)) != 0:
                        t["tau_c"] = 0.0
                    some = some or t["tau_c"] == 0.0
    if not some:
        case[draw(st.sampled_from([n for n in ("parallel", "serial") if n in case]))]["groups"][0][0]["tau_c"] = 0.0
    if draw(st.integers(0, 3)) != 0:
        # Plenty of charge for everything to be filled
        case["image"] = [[v + 10.0 + 1e-2 * i for i, v in enumerate(r)] for r in case["image"]]
        for name in ("parallel", "serial"):
            if name in case:
                c = case[name]["ccd"]
                c["notch"] = 0.0
                c["power"] = draw(st.sampled_from([0.5, 0.8, 1.0]))
                c["full_well"] = 1e5
                for g in case[name]["groups"]:
                    for t in g:
                        t["density"] = min(t["density"], 5.0)
    case["fast"] = draw(st.sampled_from([1e-9, 1e-10, 1e-12]))
    return case


def run_fast(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    # If there are not enough electrons to fill the traps, then they are shared
    # between levels that instant capture merges, but very fast capture does not
    stats = {}
    b.ref_add(case, stats=stats)
    if stats.get("not_enough"):
        return False, ["not enough charge"]
    new = copy.deepcopy(case)
    strength = 0.0
    for name in ("parallel", "serial"):
        if name in case:
            for g in new[name]["groups"]:
                for t in g:
                    if t["tau_c"] == 0.0:
                        t["tau_c"] = case["fast"]
                    strength += t["density"]
    close(
        b.add(ac, new),
        out,
        "capture in a time %g, against instant capture" % case["fast"],
        1e-5,
        max(image.max(), strength, 1e-300),
    )
    return moved(image, out), [n for n in ("parallel", "serial") if n in case]


@st.composite
def never(draw):
    """Capture or release that takes for ever."""
    case = draw(
        gen.supported(max_rows=6, max_cols=2, kinds=("instant", "slow"), max_groups=1)
    )
    case["what"] = draw(st.sampled_from(["capture", "release"]))
    for name in ("parallel", "serial"):
        if name in case:
            for g in case[name]["groups"]:
                for t in g:
                    if case["what"] == "capture":
                        t["kind"], t["tau_c"] = "slow", 1e13
                    else:
                        t["tau"] = 1e13
    return case


def run_never(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    scale = max(image.max(), 1e-300)
    total = sum(
        t["density"]
        for n in ("parallel", "serial")
        if n in case
        for g in case[n]["groups"]
        for t in g
    )
    if case["what"] == "capture":
        close(out, image, "traps that hardly ever capture", 1e-7, max(scale, total))
    else:
        check(
            np.all(out <= image + 1e-7 * max(scale, total)),
            "pixels gained charge from traps that hardly ever release",
            "in\n" + fmt(image),
            "out\n" + fmt(out),
        )
    return case["what"] == "capture" and image.max() > 0 or moved(image, out), [case["what"]]


# ----------------------------------------------------------------------------
# More phases than matter


@st.composite
def one_phase(draw):
    case = draw(
        gen.supported(
            max_rows=7,
            max_cols=3,
            serial=False,
            max_phases=1,
            roe_kinds=("standard", "injection"),
            away=st.just(True),
        )
    )
    n = draw(st.integers(2, 5))
    case["phases"] = n
    case["phase"] = draw(st.integers(0, n - 1))
    return case


def run_one_phase(ac, case):
    """All the time is spent in the only phase that has traps."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    new = copy.deepcopy(case)
    n, k = case["phases"], case["phase"]
    p = new["parallel"]
    total = case["parallel"]["ccd"]["fractions"][0]
    p["ccd"]["fractions"] = [total if i == k else 0.0 for i in range(n)]
    p["roe"]["dwell"] = [case["parallel"]["roe"]["dwell"][0] if i == k else 0.0 for i in range(n)]
    close(
        b.add(ac, new),
        out,
        "%d phases with traps only in number %d, against one phase" % (n, k),
        1e-9,
        max(image.max(), 1e-300),
    )
    return moved(image, out), ["%d phases" % n]


RULE = (
    "random traps and settings that can be described in two ways; non-trivial if "
    "charge was trapped"
)
SUBS = [
    Sub("times", lambda t: tracked(), run_tracked, RULE, 1600, 24000),
    Sub("narrow", lambda t: narrow(), run_narrow, RULE, 48, 600),
    Sub("fast", lambda t: fast(), run_fast, RULE, 1200, 20000),
    Sub("never", lambda t: never(), run_never, RULE, 400, 6000),
    Sub("phases", lambda t: one_phase(), run_one_phase, RULE, 800, 12000),
]
