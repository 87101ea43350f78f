"""Every supported configuration gives a usable image."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved


def usable(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    check(
        np.all(out >= 0),
        "the output has negative pixels, down to %.6g" % out.min(),
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    return image, out


def config_tags(case):
    tags = []
    for name in ("parallel", "serial"):
        d = case.get(name)
        if d is None:
            continue
        tags.append(name)
        r = d["roe"]
        tags.append(r["kind"])
        if d["express"]:
            tags.append("express")
        if d["offset"]:
            tags.append("offset")
        if d.get("window") is not None:
            tags.append("window")
        for key in ("first", "between", "away"):
            if not r[key]:
                tags.append("not " + key)
        if r["as_int"]:
            tags.append("integer express")
        tags.append("%d steps" % len(r["dwell"]))
        tags.extend(sorted({g[0]["kind"] for g in d["groups"]}))
    if case.get("time_window") is not None:
        tags.append("time window")
    return tags


def run(ac, case):
    image, out = usable(ac, case)
    return moved(image, out), config_tags(case)


# ----------------------------------------------------------------------------
# Far from ordinary values


@st.composite
def extreme(draw):
    """Any one direction with parameters over many orders of magnitude."""
    case = draw(
        gen.supported(max_rows=8, max_cols=2, serial=False, max_phases=3, max_species=3)
    )
    p = case["parallel"]
    level = st.one_of(
        st.just(0.0),
        gen.log_float(-12, 8),
        st.sampled_from([1e-300, 5e-324, 1.0, 1e4, 1e9, 2.0 ** -52]),
    )
    case["image"] = [[draw(level) for _ in row] for row in case["image"]]
    for g in p["groups"]:
        for t in g:
            t["density"] = draw(st.one_of(st.just(0.0), gen.log_float(-8, 7)))
            t["tau"] = draw(gen.log_float(-3, 6))
            if t["kind"] == "slow":
                t["tau_c"] = draw(st.one_of(st.just(0.0), gen.log_float(-9, 6)))
    n = len(p["roe"]["dwell"])
    p["roe"]["dwell"] = draw(st.lists(gen.log_float(-4, 4), min_size=n, max_size=n))
    p["ccd"]["full_well"] = draw(gen.log_float(0, 7))
    p["ccd"]["notch"] = draw(
        st.one_of(st.just(0.0), st.floats(0.0, 0.99).map(lambda x: x * p["ccd"]["full_well"]))
    )
    p["ccd"]["power"] = draw(st.one_of(st.just(1.0), gen.log_float(-1.5, 0.7)))
    p["express"] = draw(st.integers(0, 12))
    return case


@st.composite
def long_image(draw):
    """Many rows, few computed transfers: large multipliers."""
    case = draw(
        gen.cti_cases(
            max_rows=5,
            max_cols=2,
            serial=False,
            window=False,
            express=st.integers(1, 3),
            max_phases=3,
            max_species=2,
            roe_kinds=("standard", "standard", "injection"),
        )
    )
    n = draw(st.one_of(st.integers(10, 60), st.integers(10, 60), st.integers(60, 400)))
    row = len(case["image"])
    case["image"] = [case["image"][draw(st.integers(0, row - 1))] for _ in range(n)]
    case["parallel"]["offset"] = draw(st.sampled_from([0, 0, 50, 400]))
    return gen.cover_injection(case)


# ----------------------------------------------------------------------------
# How the same numbers are stored does not matter


@st.composite
def layouts(draw):
    case = draw(gen.supported(max_rows=6, max_cols=3, express=st.integers(0, 2)))
    case["image"] = [[float(round(v)) for v in row] for row in case["image"]]
    case["layout"] = draw(
        st.sampled_from(
            ["float32", "int64", "int32", "uint16", ">f8", "fortran", "strided", "reversed", "readonly"]
        )
    )
    if case["layout"] == "uint16":
        case["image"] = [[min(v, 65535.0) for v in row] for row in case["image"]]
    return case


def stored_image(plain, kind):
    if kind == "fortran":
        return np.asfortranarray(plain)
    if kind == "strided":
        big = np.full((2 * plain.shape[0], 3 * plain.shape[1]), 7.0)
        big[::2, ::3] = plain
        return big[::2, ::3]
    if kind == "reversed":
        return np.ascontiguousarray(plain[::-1, ::-1])[::-1, ::-1]
    if kind == "readonly":
        image = plain.copy()
        image.flags.writeable = False
        return image
    return plain.astype(kind)


def run_layout(ac, case):
    plain = arr(case["image"])
    kind = case["layout"]
    image = stored_image(plain, kind)
    expect = b.add(ac, case)
    out = np.asarray(ac.add_cti(image=image, **b.kwargs(ac, case)))
    is_image(out, plain.shape)
    close(out, expect, "image stored as %s" % kind, 1e-12)
    return moved(plain, out), [kind]


RULE = (
    "random images and every option of add_cti (both directions, all clocking modes, "
    "express, offsets, windows in space and time); non-trivial if any pixel changed "
    "by more than 1e-6 of the peak"
)
SUBS = [
    Sub("supported", lambda t: gen.supported(), run, RULE, 2400, 40000),
    Sub("extreme", lambda t: extreme(), run, RULE, 1200, 20000),
    Sub("long", lambda t: long_image(), run, RULE, 240, 4000),
    Sub("pumping", lambda t: gen.pumping(), run, RULE, 480, 8000),
    Sub("layouts", lambda t: layouts(), run_layout, RULE, 400, 6000),
    Sub(
        "continuum",
        lambda t: gen.supported(
            continuum=True, max_rows=4, max_cols=1, serial=False, max_phases=2
        ),
        run,
        RULE,
        64,
        800,
    ),
]
