"""add_cti computes the documented model, compared with an independent one."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, close, is_image, moved


def classes(case, stats):
    tags = []
    for n in ("parallel", "serial"):
        if n not in case:
            continue
        d = case[n]
        tags.append(n)
        tags.append(d["roe"]["kind"])
        tags.append("%d phases" % len(d["ccd"]["fractions"]))
        if len(d["groups"]) > 1:
            tags.append("several groups")
        if d["express"]:
            tags.append("express")
        if d["offset"]:
            tags.append("offset")
        if d["window"] if isinstance(d.get("window"), int) else d.get("window"):
            tags.append("window")
        if not d["roe"]["first"]:
            tags.append("traps kept for first transfers")
        if not d["roe"]["between"]:
            tags.append("traps kept between columns")
        if not d["roe"]["away"]:
            tags.append("release either way")
    if case.get("time_window"):
        tags.append("time window")
    if stats.get("not_enough"):
        tags.append("not enough charge")
    if stats.get("clips"):
        tags.append("clipped at zero")
    if stats.get("levels", 0) > 3:
        tags.append("more than 3 levels")
    return sorted(set(tags))


def run(ac, case, rtol=1e-7):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    stats = {}
    want = b.ref_add(case, stats=stats)
    total = 2 * sum(
        t["density"]
        for n in ("parallel", "serial")
        if n in case
        for g in case[n]["groups"]
        for t in g
    )
    scale = max(float(image.max()), 1e-300)
    # A sum of many traps' electrons has their rounding errors
    close(out, want, "image with CTI", rtol, scale, 1e-12 * total)
    return moved(image, out), classes(case, stats)


def run_continuum(ac, case):
    return run(ac, case, 1e-4)


@st.composite
def anything(draw, **args):
    """Also with a window along a direction without traps."""
    case = draw(gen.supported(**args))
    for name, n in (("parallel", gen.n_rows(case)), ("serial", gen.n_cols(case))):
        if name not in case and draw(st.integers(0, 2)) == 0:
            w = draw(gen.windows(n))
            if w is not None:
                case["windows"] = {name: w}
    return case


@st.composite
def tall(draw):
    """More rows, more groups of traps."""
    case = draw(
        gen.supported(
            max_rows=5,
            max_cols=2,
            serial=False,
            max_groups=4,
            max_species=4,
            max_phases=3,
            window=False,
            time_window=False,
        )
    )
    n = draw(st.integers(6, 36))
    rows = len(case["image"])
    case["image"] = [case["image"][draw(st.integers(0, rows - 1))] for _ in range(n)]
    p = case["parallel"]
    p["express"] = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13, 30, 50]))
    p["offset"] = draw(st.sampled_from([0, 0, 1, 3, 17]))
    w = draw(gen.windows(n))
    if w is not None:
        p["window"] = w
    if draw(st.integers(0, 2)) == 0:
        a = draw(st.integers(0, n + p["offset"] - 1))
        case["time_window"] = [a, draw(st.integers(a + 1, n + p["offset"]))]
    return gen.cover_injection(case)


@st.composite
def long(draw):
    """A hundred rows or more, in a few computed transfers."""
    case = draw(
        gen.supported(
            max_rows=8,
            max_cols=1,
            serial=False,
            max_groups=2,
            max_species=2,
            max_phases=2,
            window=False,
            time_window=False,
        )
    )
    n = draw(st.integers(60, 260))
    rows = len(case["image"])
    some = draw(st.integers(0, 1000))
    # A stretch that repeats, so that it can be written down and shrunk
    period = draw(st.integers(1, 40))
    case["image"] = [
        list(case["image"][((r % period) * (some + r % period)) % rows]) for r in range(n)
    ]
    p = case["parallel"]
    p["express"] = draw(st.sampled_from([1, 1, 2, 3]))
    p["offset"] = draw(st.sampled_from([0, 0, 1, 3, 17, 2000]))
    return gen.cover_injection(case)


RULE = (
    "random images and settings of everything that add_cti supports; non-trivial if "
    "a pixel changed by over 1e-6 of the brightest"
)
SUBS = [
    Sub("single", lambda t: gen.supported(max_rows=9, max_cols=3, max_phases=1, serial=False), run, RULE, 1600, 40000),
    Sub("any", lambda t: anything(max_rows=7, max_cols=3), run, RULE, 2000, 60000),
    Sub("tall", lambda t: tall(), run, RULE, 240, 6000),
    Sub("long", lambda t: long(), run, RULE, 80, 2400),
    Sub(
        "mixed",
        lambda t: gen.supported(
            max_rows=3, max_cols=2, kinds=("continuum", "instant", "slow", "continuum"), serial=False,
            max_phases=2, max_groups=3, max_species=1, express=st.integers(0, 2),
        ),
        run_continuum,
        RULE,
        48,
        800,
    ),
    Sub(
        "continuum",
        lambda t: gen.supported(max_rows=3, max_cols=1, continuum=True, kinds=("continuum",), serial=False, max_phases=1, max_groups=1, max_species=1),
        run_continuum,
        RULE,
        40,
        600,
    ),
]
