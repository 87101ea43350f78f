"""Charge is never created, and only moves away from the readout."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, fmt, is_image, moved


@st.composite
def one_direction(draw, kinds=("instant", "slow"), **args):
    settings = dict(
        max_rows=9,
        max_cols=2,
        kinds=kinds,
        express=st.just(0),
        first=st.just(True),
        between=st.just(True),
        roe_kinds=("standard", "standard", "injection"),
        max_groups=1,
        max_phases=4,
        serial=False,
    )
    settings.update(args)
    case = draw(gen.cti_cases(**settings))
    return gen.cover_injection(case)


def prefix_sums(case, image, out):
    tol = 1e-9 * max(1e-300, float(image.sum(axis=0).max()))
    gain = np.cumsum(out, axis=0) - np.cumsum(image, axis=0)
    worst = np.unravel_index(np.argmax(gain), gain.shape)
    check(
        gain[worst] <= tol,
        "the %d pixels nearest the readout of column %d gained %.6g electrons"
        % (worst[0] + 1, worst[1], gain[worst]),
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )


def run_single(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    prefix_sums(case, image, out)
    p = case["parallel"]
    lost = float(image.sum() - out.sum())
    tags = [p["groups"][0][0]["kind"], p["roe"]["kind"], "%d-phase" % len(p["roe"]["dwell"])]
    if lost > 1e-6 * image.sum():
        tags.append("charge left in traps")
    if np.any(out - image > 1e-6 * image.max()):
        tags.append("trail")
    return moved(image, out), tags


def plentiful():
    """Several groups, and always more electrons than traps they can reach."""

    @st.composite
    def s(draw):
        case = draw(
            one_direction(
                max_groups=3,
                notch=False,
                density=gen.log_float(-2, 1.5),
            )
        )
        p = case["parallel"]
        power = st.floats(1.0, 1.5).map(lambda x: float("%.6g" % x))
        p["ccd"]["power"] = draw(power)
        total = sum(t["density"] for g in p["groups"] for t in g) * max(1.0, sum(p["ccd"]["fractions"]))
        depth = p["ccd"]["full_well"]
        low = min(depth) if isinstance(depth, list) else depth
        if total > 0.5 * low:
            for g in p["groups"]:
                for t in g:
                    t["density"] *= 0.5 * low / total
        return case

    return s()


@st.composite
def both(draw):
    case = draw(one_direction(max_rows=6, max_cols=4, window=False))
    d = draw(one_direction(max_rows=4, max_cols=1, window=False, roe_kinds=("standard",)))
    case["serial"] = copy.deepcopy(d["parallel"])
    return case


def run_both(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    check(
        out.sum() <= image.sum() * (1 + 1e-9),
        "the image gained %.6g electrons" % (out.sum() - image.sum()),
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    return moved(image, out), []


@st.composite
def delayed(draw):
    """Other ways to clock in which nothing can be gained: released on both sides of
    the phases, and every transfer computed by an express that is no less than the
    number of transfers."""
    express = st.one_of(st.just(0), st.integers(13, 40))
    case = draw(
        one_direction(
            express=express,
            away=st.booleans(),
            max_cols=3,
            max_rows=8,
            window=False,
        )
    )
    return case


def run_delayed(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    gain = float(out.sum() - image.sum())
    check(
        gain <= 1e-9 * float(image.sum()),
        "the image gained %.6g electrons" % gain,
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    p = case["parallel"]
    tags = [
        p["roe"]["kind"],
        "released on both sides" if not p["roe"]["away"] else "released away",
        "express" if p["express"] else "every transfer",
    ]
    return moved(image, out), tags


@st.composite
def returned(draw):
    """Sources on a background of blank pixels, long enough for all to be released."""
    case = draw(
        one_direction(
            max_rows=6,
            max_cols=2,
            max_phases=3,
            notch=False,
            window=False,
            offset=st.sampled_from([0, 0, 2, 24]),
            away=st.booleans(),
            express=st.sampled_from([0, 0, 80]),
            density=gen.log_float(-1, 3),
            roe_kinds=("standard",),
        )
    )
    p = case["parallel"]
    c = p["ccd"]
    c["power"] = draw(st.sampled_from([1.0, 1.0, 1.2, 1.5]))
    c["fractions"] = [f / sum(c["fractions"]) for f in c["fractions"]]
    depth = c["full_well"]
    low = min(depth) if isinstance(depth, list) else depth
    total = sum(t["density"] for g in p["groups"] for t in g)
    # Few enough traps for electrons to get away from those that released them
    factor = min(1.0, 0.1 * low / total)
    # and release within a clock cycle or so
    cycle = sum(p["roe"]["dwell"])
    for g in p["groups"]:
        for t in g:
            t["density"] *= factor
            t["tau"] = float("%.6g" % (cycle * draw(st.floats(0.1, 0.3))))
    case["blank"] = 16
    return case


def run_returned(ac, case):
    """All of the charge is still there, once it had the time to be released."""
    image = arr(case["image"])
    blank = case["blank"]
    # (The last row takes what is released into the pixel behind)
    image = np.concatenate((np.zeros((1, image.shape[1])), image, np.zeros((blank, image.shape[1]))))
    new = copy.deepcopy(case)
    new["parallel"]["window"] = [1, len(image) - 1]
    out = is_image(b.add(ac, new, image.copy()), image.shape)
    worst = np.abs(out.sum(axis=0) - image.sum(axis=0)).max()
    left = 10 * out[-4:].sum(axis=0).max()
    check(
        worst <= 1e-9 * image.sum(axis=0).max() + left,
        "%.6g electrons are neither in the image nor can they still be in traps" % worst,
        "in\n" + fmt(image.T),
        "out\n" + fmt(out.T),
    )
    tags = ["%d-phase" % len(case["parallel"]["roe"]["dwell"])]
    return moved(image, out) and left < 1e-4 * image.sum(), tags


RULE = (
    "random images, wells, trap species, clocking; every transfer computed, traps "
    "starting empty; non-trivial if any pixel changed by more than 1e-6 of the peak"
)
SUBS = [
    Sub("single", lambda t: one_direction(), run_single, RULE, 3000, 40000),
    Sub("groups", lambda t: plentiful(), run_single, RULE, 800, 12000),
    Sub("delayed", lambda t: delayed(), run_delayed, RULE, 700, 12000),
    Sub("returned", lambda t: returned(), run_returned, RULE, 240, 4000),
    Sub("both", lambda t: both(), run_both, RULE, 500, 8000),
    Sub(
        "continuum",
        lambda t: one_direction(kinds=("continuum",), max_rows=4, max_cols=1, max_phases=2),
        run_single,
        RULE,
        64,
        800,
    ),
]
