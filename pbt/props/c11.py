"""Correction: iterated forward modelling that recovers the original image."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, moved
from pbt.props.c02 import layouts, stored_image


@st.composite
def any_case(draw):
    case = draw(gen.supported(max_rows=6, max_cols=4))
    case["iterations"] = draw(st.integers(0, 4))
    return case


def run_law(ac, case):
    image = arr(case["image"])
    given = image.copy()
    out = ac.remove_cti(image=given, iterations=case["iterations"], **b.kwargs(ac, case))
    check(np.array_equal(given, image), "the input image was changed")
    check(out is not given and not np.shares_memory(out, given), "the output is the input")
    # Each iteration moves the estimate by what the forward model misses
    estimate = image.copy()
    for _ in range(case["iterations"]):
        estimate = estimate + (image - b.add(ac, case, estimate))
    scale = max(1e-300, float(np.abs(estimate).max()), float(image.max()))
    close(out, estimate, "%d iterations" % case["iterations"], 1e-9, scale)
    return case["iterations"] > 0 and moved(image, out), ["%d iterations" % case["iterations"]]


@st.composite
def weak(draw):
    """Realistic CTI: a background, and traps that are few per electron."""
    n = draw(st.integers(2, 8))
    m = draw(st.integers(1, 3))
    sky = draw(gen.log_float(1.5, 3.5))
    image = [
        [sky + draw(st.one_of(st.just(0.0), gen.log_float(1, 4))) for _ in range(m)]
        for _ in range(n)
    ]
    case = {"image": image}
    which = draw(st.sampled_from(["p", "s", "ps"]))
    for letter, name in (("p", "parallel"), ("s", "serial")):
        if letter not in which:
            continue
        d = draw(
            gen.directions(
                max_phases=3,
                max_groups=2,
                max_species=2,
                notch=False,
                first=st.just(True),
                between=st.just(True),
                express=st.sampled_from([0, 0, 0, 1, 2]),
                offset=st.sampled_from([0, 0, 5]),
                roe_kinds=("standard", "standard", "injection"),
            )
        )
        if d["roe"]["kind"] == "injection":
            d["roe"]["n_transfers"] = None
        d["ccd"]["power"] = draw(st.sampled_from([0.5, 0.8, 1.0]))
        d["ccd"]["full_well"] = draw(gen.log_float(4.7, 5.3))
        size = n if name == "parallel" else m
        transfers = size + d["offset"]
        # Steepest possible fraction of the electrons that one transfer traps
        power = d["ccd"]["power"]
        slope = power * (sky / d["ccd"]["full_well"]) ** power / sky
        total = sum(t["density"] for g in d["groups"] for t in g) * sum(d["ccd"]["fractions"])
        target = draw(st.sampled_from([0.01, 0.03, 0.08]))
        factor = target / (total * slope * transfers)
        for g in d["groups"]:
            for t in g:
                t["density"] *= factor
        case[name] = d
    case["iterations"] = 4
    return case


def run_weak(ac, case):
    truth = arr(case["image"])
    trailed = b.add(ac, case)
    kw = b.kwargs(ac, case)
    errors = [float(np.max(np.abs(trailed - truth)))]
    for i in range(1, case["iterations"] + 1):
        out = ac.remove_cti(image=trailed.copy(), iterations=i, **kw)
        errors.append(float(np.max(np.abs(out - truth))))
    floor = 1e-9 * truth.max()
    effect = errors[0]
    for i in range(1, len(errors)):
        check(
            errors[i] <= 0.5 * errors[i - 1] + floor,
            "iteration %d: the error went from %.6g to %.6g" % (i, errors[i - 1], errors[i]),
            "errors %s" % errors,
        )
    check(
        errors[-1] <= 0.02 * effect + floor,
        "after %d iterations %.3g of the trails remain" % (case["iterations"], errors[-1] / max(effect, 1e-300)),
        "errors %s" % errors,
    )
    return effect > 1e-6 * truth.max(), [n for n in ("parallel", "serial") if n in case]


@st.composite
def consistent(draw):
    """What the correction converges to has the observed trails."""
    case = draw(weak())
    return case


def run_consistent(ac, case):
    """Also for an image that no true image could have produced exactly."""
    observed = arr(case["image"])
    out = ac.remove_cti(image=observed.copy(), iterations=6, **b.kwargs(ac, case))
    if np.asarray(out).min() <= 0:
        return False, ["negative"]
    again = b.add(ac, case, np.array(out))
    effect = float(np.max(np.abs(out - observed)))
    err = float(np.max(np.abs(again - observed)))
    check(
        err <= 0.02 * effect + 1e-9 * observed.max(),
        "adding CTI to the corrected image misses the observed image by %.3g of the trails"
        % (err / max(effect, 1e-300)),
        "observed\n" + fmt(observed),
        "again\n" + fmt(again),
    )
    return effect > 1e-6 * observed.max(), []


@st.composite
def stored(draw):
    case = draw(layouts())
    case["iterations"] = draw(st.integers(0, 3))
    return case


def run_stored(ac, case):
    """How the same numbers are stored does not matter."""
    plain = arr(case["image"])
    image = stored_image(plain, case["layout"])
    given = image.copy()
    kw = b.kwargs(ac, case)
    expect = ac.remove_cti(image=plain.copy(), iterations=case["iterations"], **kw)
    out = np.asarray(ac.remove_cti(image=image, iterations=case["iterations"], **kw))
    check(out.shape == plain.shape, "the shape of the image has changed")
    check(np.array_equal(given, image), "the input image was changed")
    scale = max(1e-300, float(np.abs(expect).max()), float(plain.max()))
    close(out, expect, "image stored as %s" % case["layout"], 1e-9, scale)
    return case["iterations"] > 0 and moved(plain, out), [case["layout"]]


RULE = (
    "random images and all options; weak: trapping of at most a few per cent; "
    "non-trivial if the image was changed"
)
SUBS = [
    Sub("law", lambda t: any_case(), run_law, RULE, 1000, 16000),
    Sub("stored", lambda t: stored(), run_stored, RULE, 400, 6000),
    Sub("weak", lambda t: weak(), run_weak, RULE, 400, 6000),
    Sub("consistent", lambda t: consistent(), run_consistent, RULE, 240, 4000),
]
