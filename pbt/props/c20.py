"""Charge injection: every pixel takes the same number of transfers."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, is_image, moved
from pbt.props.c19 import classes


def density_total(case):
    p = case["parallel"]
    return sum(t["density"] for g in p["groups"] for t in g) * max(1.0, sum(p["ccd"]["fractions"]))


@st.composite
def injections(draw, max_rows=7, max_cols=2, express=st.integers(0, 6), window=True, **args):
    settings = dict(
        max_rows=max_rows,
        max_cols=max_cols,
        serial=False,
        window=window,
        roe_kinds=("injection",),
        away=st.booleans(),
        max_phases=3,
        express=express,
    )
    settings.update(args)
    case = draw(gen.cti_cases(**settings))
    # Traps never keep their charge from one injected pixel to the next transfer,
    # whatever is set for the standard readout
    if draw(st.integers(0, 2)) == 0:
        case["parallel"]["roe"]["set_first"] = draw(st.booleans())
    return case


# ----------------------------------------------------------------------------


@st.composite
def modelled(draw):
    case = draw(injections())
    if draw(st.integers(0, 3)) == 0:
        n = case["parallel"]["roe"]["n_transfers"] or gen.n_rows(case)
        a = draw(st.integers(0, n - 1))
        case["time_window"] = [a, draw(st.integers(a + 1, n))]
    return gen.cover_injection(case)


def run_modelled(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    stats = {}
    want = b.ref_add(case, stats=stats)
    close(
        out,
        want,
        "image with CTI",
        1e-7,
        max(image.max(), 1e-300),
        1e-12 * density_total(case),
    )
    return moved(image, out), classes(case, stats)


def run_default_window(ac, case):
    """All the transfers asked for happen, however many they are."""
    return run_modelled(ac, case)


# ----------------------------------------------------------------------------


@st.composite
def split(draw):
    # Each transfer meets traps of its own, empty to begin with
    case = draw(injections(express=st.just(0), between=st.just(True)))
    n = draw(st.integers(1, 10))
    case["parallel"]["roe"]["n_transfers"] = n
    case["cut"] = draw(st.integers(0, n))
    return case


def run_split(ac, case):
    """n transfers at once are k transfers, then n - k more of the result."""
    n, k = case["parallel"]["roe"]["n_transfers"], case["cut"]
    image = arr(case["image"])

    def some(img, m):
        if m == 0:
            return img
        new = copy.deepcopy(case)
        new["parallel"]["roe"]["n_transfers"] = m
        new["time_window"] = [0, m]
        return is_image(b.add(ac, new, img), image.shape)

    once = some(image, n)
    twice = some(some(image, k), n - k)
    close(twice, once, "%d + %d transfers" % (k, n - k), 1e-9, max(image.max(), 1e-300), 1e-12 * density_total(case))
    return moved(image, once) and 0 < k < n, ["%d transfers" % n]


# ----------------------------------------------------------------------------


@st.composite
def shifted(draw):
    case = draw(injections(window=False, away=st.just(True), between=st.just(True)))
    case["parallel"]["offset"] = 0
    n = draw(st.integers(1, gen.n_rows(case) + 2))
    case["parallel"]["roe"]["n_transfers"] = n
    case["time_window"] = [0, n]
    case["blank"] = draw(st.integers(1, 5))
    return case


def run_shifted(ac, case):
    """It does not matter how far from the readout the charge is injected."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    n = case["blank"]
    blank = np.zeros((n, image.shape[1]))
    more = np.vstack([blank, image])
    far = is_image(b.add(ac, case, more), more.shape)
    scale = max(image.max(), 1e-300)
    close(far[n:], out, "image %d pixels further from the readout" % n, 1e-9, scale, 1e-12 * density_total(case))
    check(np.all(far[:n] == 0), "charge appeared ahead of the first", far[:n])
    return moved(image, out), ["%d blank rows" % n]


# ----------------------------------------------------------------------------


@st.composite
def defaults(draw):
    case = draw(injections())
    case["parallel"]["roe"]["n_transfers"] = None
    case["others"] = [draw(gen.images(9, 2)) for _ in range(draw(st.integers(1, 3)))]
    return case


def run_defaults(ac, case):
    """By default as many transfers as pixels to the readout, for each image."""
    roe = b.roe(ac, case["parallel"]["roe"])
    kw = b.direction(ac, case["parallel"], "parallel")
    kw["parallel_roe"] = roe
    window = case["parallel"].get("window")
    did = False
    for image in [case["image"]] + case["others"] + [case["image"]]:
        image = arr(image)
        if window is not None:
            # (as much of the window as there is)
            last = image.shape[0] - 1
            some = [min(window[0], last), min(window[1], last + 1)]
            kw["parallel_window_range"] = range(*some)
        out = is_image(np.asarray(ac.add_cti(image=image.copy(), **kw)), image.shape)
        new = copy.deepcopy(case)
        n = image.shape[0] + case["parallel"]["offset"]
        new["parallel"]["roe"]["n_transfers"] = n
        new["image"] = image.tolist()
        if window is not None:
            new["parallel"]["window"] = some
        close(
            out,
            b.add(ac, new),
            "default number of transfers of %d rows, against %d" % (image.shape[0], n),
            1e-12,
            max(image.max(), 1e-300),
        )
        did = did or moved(image, out)
    return did, ["%d images" % (2 + len(case["others"])), "whole" if window is None else "window"]


RULE = "random injected images and settings; non-trivial if charge moved"
SUBS = [
    Sub("model", lambda t: modelled(), run_modelled, RULE, 1600, 40000),
    Sub("split", lambda t: split(), run_split, RULE, 800, 16000),
    Sub("shift", lambda t: shifted(), run_shifted, RULE, 800, 16000),
    Sub("default", lambda t: defaults(), run_defaults, RULE, 400, 8000),
]
