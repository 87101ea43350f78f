"""Windows in space: a window gives the same result there, and nothing elsewhere."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved


def spill(case, name):
    """How far behind the window charge can be released."""
    r = case[name]["roe"]
    return 0 if len(r["dwell"]) == 1 else 1


@st.composite
def outside(draw):
    case = draw(gen.supported(max_rows=8, max_cols=5, serial=False))
    for name, n in (("parallel", gen.n_rows(case)), ("serial", gen.n_cols(case))):
        a = draw(st.integers(0, n - 1))
        w = [a, draw(st.integers(a + 1, n))]
        case[name + "_w"] = w
    case.pop("time_window", None)
    case["parallel"].pop("window", None)
    case["swap"] = draw(st.booleans())
    return gen.cover_injection(case)


def run_outside(ac, case):
    image = arr(case["image"])
    d = case["parallel"]
    rows, cols = case["parallel_w"], case["serial_w"]
    if case["swap"]:
        kw = b.direction(ac, d, "serial")
        given = image.T.copy()
        kw["serial_window_range"] = range(*rows)
        kw["parallel_window_range"] = range(*cols)
    else:
        kw = b.direction(ac, d, "parallel")
        given = image.copy()
        kw["parallel_window_range"] = range(*rows)
        kw["serial_window_range"] = range(*cols)
        if case.get("time_window") is not None:
            kw["time_window_range"] = range(*case["time_window"])
    out = is_image(ac.add_cti(image=given, **kw), given.shape)
    if case["swap"]:
        out = out.T
    ahead = 0 if d["roe"]["away"] else spill(case, "parallel")
    behind = spill(case, "parallel")
    touched = np.zeros(image.shape, dtype=bool)
    touched[max(0, rows[0] - ahead) : rows[1] + behind, cols[0] : cols[1]] = True
    bad = (out != image) & ~touched
    check(
        not bad.any(),
        "pixels outside the window rows %s columns %s changed" % (rows, cols),
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    partial = not touched.all()
    return partial and moved(image, out), ["serial" if case["swap"] else "parallel"]


@st.composite
def prefix(draw):
    """The rows (or columns) nearest the readout, with every transfer computed."""
    case = draw(
        gen.cti_cases(
            max_rows=9,
            max_cols=3,
            serial=False,
            window=False,
            express=st.just(0),
            between=st.just(True),
            max_phases=3,
            roe_kinds=("standard", "standard", "injection"),
        )
    )
    n = gen.n_rows(case)
    case["stop"] = draw(st.integers(1, n))
    roe = case["parallel"]["roe"]
    if roe["kind"] == "injection":
        if roe["n_transfers"] is not None:
            roe["n_transfers"] = min(roe["n_transfers"], n + case["parallel"]["offset"])
    case["swap"] = draw(st.booleans())
    return case


def call(ac, case, image, window=None, d=None):
    d = case["parallel"] if d is None else d
    name = "serial" if case["swap"] else "parallel"
    kw = b.direction(ac, d, name)
    if window is not None:
        kw[name + "_window_range"] = range(*window)
    if case.get("time_window") is not None and not case["swap"]:
        kw["time_window_range"] = range(*case["time_window"])
    out = np.asarray(ac.add_cti(image=image.T.copy() if case["swap"] else image.copy(), **kw))
    return out.T if case["swap"] else out


def run_prefix(ac, case):
    image = arr(case["image"])
    full = call(ac, case, image)
    stop = case["stop"]
    part = call(ac, case, image, [0, stop])
    close(
        part[:stop],
        full[:stop],
        "the first %d rows as a window, against the whole image" % stop,
        1e-10,
        max(image.max(), 1e-300),
    )
    return moved(image[:stop], full[:stop]) and stop < len(image), [
        "serial" if case["swap"] else "parallel",
        case["parallel"]["roe"]["kind"],
    ]


@st.composite
def sub_image(draw):
    """A window in the middle is the same as a smaller image with an offset."""
    case = draw(
        gen.cti_cases(
            max_rows=9,
            max_cols=3,
            serial=False,
            window=False,
            between=st.just(True),
            max_phases=3,
            roe_kinds=("standard", "standard", "injection"),
        )
    )
    n = gen.n_rows(case)
    a = draw(st.integers(0, n - 1))
    z = draw(st.integers(a + 1, n))
    case["middle"] = [a, z]
    p = case["parallel"]
    # The first transfer of each pixel is only separate if fewer transfers than
    # rows are computed: the same choice must be made for both images
    if p["express"] >= z - a:
        p["express"] = draw(st.one_of(st.just(0), st.integers(0, max(0, z - a - 1))))
    case["swap"] = draw(st.booleans())
    if p["roe"]["kind"] == "injection":
        case["swap"] = False
        m = p["roe"]["n_transfers"] or n
        p["roe"]["n_transfers"] = m
        case["time_window"] = [0, m]
    return case


def run_sub_image(ac, case):
    image = arr(case["image"])
    a, z = case["middle"]
    out = call(ac, case, image, [a, z])
    d = copy.deepcopy(case["parallel"])
    if d["roe"]["kind"] == "standard":
        d["offset"] += a
    alone = call(ac, case, image[a:z], None, d)
    # Charge released behind the last row of the window is not in the small image
    close(
        out[a:z],
        alone,
        "rows %d to %d as a window, against a smaller image with an offset" % (a, z),
        1e-10,
        max(image.max(), 1e-300),
    )
    return moved(image[a:z], alone) and z - a < len(image), [d["roe"]["kind"]]


@st.composite
def cross(draw):
    """Columns in the window are as if the others were not there."""
    case = draw(gen.supported(max_rows=7, max_cols=5, serial=False, between=st.just(True)))
    n = gen.n_cols(case)
    a = draw(st.integers(0, n - 1))
    case["across"] = [a, draw(st.integers(a + 1, n))]
    case["swap"] = draw(st.booleans()) and case.get("time_window") is None
    return case


def run_cross(ac, case):
    image = arr(case["image"])
    a, z = case["across"]
    full = call(ac, case, image)
    name, other = ("serial", "parallel") if case["swap"] else ("parallel", "serial")
    kw = b.direction(ac, case["parallel"], name)
    kw[other + "_window_range"] = range(a, z)
    if case.get("time_window") is not None:
        kw["time_window_range"] = range(*case["time_window"])
    out = np.asarray(ac.add_cti(image=image.T.copy() if case["swap"] else image.copy(), **kw))
    out = out.T if case["swap"] else out
    expect = image.copy()
    expect[:, a:z] = full[:, a:z]
    close(out, expect, "only columns %d to %d" % (a, z), 1e-10, max(image.max(), 1e-300))
    return moved(image, expect) and z - a < image.shape[1], []


@st.composite
def whole(draw):
    """A window of the whole image, or the number of a row, in other words."""
    case = draw(gen.supported(max_rows=7, max_cols=4, window=False, roe_kinds=("standard", "standard", "injection")))
    if case.get("time_window") is None and draw(st.booleans()):
        case["one"] = draw(st.integers(0, min(gen.n_rows(case), gen.n_cols(case)) - 1))
    return case


def run_whole(ac, case):
    image = arr(case["image"])
    kw = b.kwargs(ac, case)
    if case.get("one") is not None:
        i = case["one"]
        x = ac.add_cti(image=image.copy(), parallel_window_range=i, serial_window_range=i, **kw)
        y = ac.add_cti(
            image=image.copy(),
            parallel_window_range=range(i, i + 1),
            serial_window_range=range(i, i + 1),
            **kw
        )
        what = "window %d as an integer and as a range" % i
    else:
        x = ac.add_cti(image=image.copy(), **kw)
        y = ac.add_cti(
            image=image.copy(),
            parallel_window_range=range(image.shape[0]),
            serial_window_range=range(image.shape[1]),
            **kw
        )
        what = "a window that is the whole image"
    close(x, y, what, 1e-12, max(image.max(), 1e-300))
    return moved(image, x), ["one" if case.get("one") is not None else "whole"]


RULE = (
    "random images, settings and windows; non-trivial if the window is smaller than "
    "the image and CTI changed it"
)
SUBS = [
    Sub("outside", lambda t: outside(), run_outside, RULE, 1600, 24000),
    Sub("prefix", lambda t: prefix(), run_prefix, RULE, 800, 12000),
    Sub("sub-image", lambda t: sub_image(), run_sub_image, RULE, 1200, 20000),
    Sub("columns", lambda t: cross(), run_cross, RULE, 600, 8000),
    Sub("whole", lambda t: whole(), run_whole, RULE, 400, 6000),
]
