"""Trap pumping: charge goes back and forth, and ends up next to the traps."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved
from pbt.props.c19 import classes


def density_total(case):
    p = case["parallel"]
    return sum(t["density"] for g in p["groups"] for t in g) * max(1.0, sum(p["ccd"]["fractions"]))


def inside(case, margin=1):
    """Put the traps where charge can go either way."""
    n = gen.n_rows(case)
    w = case["parallel"]["window"]
    case["parallel"]["window"] = min(max(w, margin), max(n - 1 - margin, 0))
    return case


# ----------------------------------------------------------------------------


def run_model(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    stats = {}
    want = b.ref_add(case, stats=stats)
    scale = max(image.max(), 1e-300)
    # In the model, the image goes on; in the code, charge is not wrapped around
    # nor written outside
    rows, cols = image.shape
    want = want[:rows]
    close(out, want, "pumped image", 1e-7, scale, 1e-12 * density_total(case))
    return moved(image, out), classes(case, stats)


@st.composite
def pumped(draw, **args):
    case = draw(gen.pumping(**args))
    while len(case["image"]) < 3:
        case["image"].append([0.0] * len(case["image"][0]))
    return inside(case)


# ----------------------------------------------------------------------------


def run_local(ac, case):
    """Only the pixels of the traps and next to them change; nothing is lost
    that is not in traps."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    w = case["parallel"]["window"]
    for r in range(image.shape[0]):
        if abs(r - w) > 1:
            check(
                np.array_equal(out[r], image[r]),
                "row %d changed though the traps are in row %d" % (r, w),
                fmt(out - image),
            )
    scale = max(image.max(), 1e-300)
    check(np.all(out >= 0), "negative charge", fmt(out))
    return moved(image, out), []


# ----------------------------------------------------------------------------


@st.composite
def balanced(draw):
    """One kind of trap in plenty of charge, so nothing runs out."""
    case = draw(pumped(kinds=("instant", "slow")))
    case["image"] = [[v + 2000.0 for v in row] for row in case["image"]]
    p = case["parallel"]
    p["groups"] = p["groups"][:1]
    for t in p["groups"][0]:
        t["density"] = min(t["density"], 30.0)
    p["express"] = 0
    p["roe"]["as_int"] = False
    c = p["ccd"]
    c["notch"] = 0.0
    return case


def run_balance(ac, case):
    """Charge missing from the image is in traps: between none and all of them."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    # For any one column, the traps held in this row
    p = case["parallel"]
    full = sum(t["density"] for g in p["groups"] for t in g) * sum(p["ccd"]["fractions"])
    missing = image.sum(axis=0) - out.sum(axis=0)
    slack = 1e-9 * max(image.sum(), full)
    if case["parallel"]["roe"]["between"]:
        check(
            np.all(missing >= -slack) and np.all(missing <= full + slack),
            "%s electrons went missing, into %g traps" % (missing, full),
            fmt(out - image),
        )
    return moved(image, out), []


# ----------------------------------------------------------------------------


@st.composite
def flat_dipoles(draw):
    """A flat field: what leaves one pixel goes to a neighbour."""
    level = draw(gen.log_float(2.5, 4.0))
    rows = draw(st.integers(3, 6))
    return {
        "level": level,
        "rows": rows,
        "row": draw(st.integers(1, rows - 2)),
        "trap": draw(gen.instant_trap(density=gen.log_float(-1, 1), tau=gen.log_float(-0.7, 0.7))),
        "pumps": draw(st.integers(30, 150)),
        "power": draw(st.floats(0.3, 1.0).map(lambda x: float("%.6g" % x))),
    }


def run_dipoles(ac, case):
    """
    Three phases, pumped for long: traps under phase 0 make no dipole, and those
    under the other phases make dipoles: traps in phase 1 move charge to the next
    pixel, and in phase 2 to the previous one.
    """
    image = np.full((case["rows"], 1), case["level"])

    def pump(phase):
        fractions = [0.0] * 3
        fractions[phase] = 1.0
        return is_image(
            np.asarray(
                ac.add_cti(
                    image=image.copy(),
                    parallel_ccd=ac.CCD(
                        fraction_of_traps_per_phase=fractions,
                        full_well_depth=2e5,
                        well_fill_power=case["power"],
                    ),
                    parallel_roe=ac.ROETrapPumping(
                        dwell_times=[1.0] * 6, n_pumps=case["pumps"]
                    ),
                    parallel_traps=[b.trap(ac, case["trap"])],
                    parallel_window_range=case["row"],
                    parallel_express=0,
                )
            ),
            image.shape,
        )[:, 0] - case["level"]

    k = case["row"]
    zero, one, two = pump(0), pump(1), pump(2)
    density = case["trap"]["density"]
    slack = 1e-9 * case["level"] * case["pumps"]
    for name, diff in (("0", zero), ("1", one), ("2", two)):
        check(
            -slack <= -diff.sum() <= density + slack,
            "charge is missing, other than in traps in phase " + name,
            diff,
        )
    # Phase 0 lies half way between the two places where its charge is
    check(
        abs(zero[k - 1]) <= slack and np.all(zero <= 2 * density + slack),
        "traps in phase 0",
        zero,
    )
    # Away from the middle, charge moves from this pixel to the nearest one
    for name, diff, to, other in (
        ("1", one, k + 1, k - 1),
        ("2", two, k - 1, k + 1),
    ):
        check(
            diff[k] < slack and diff[to] > -slack and abs(diff[other]) <= slack,
            "no dipole from pixel %d to %d by traps in phase %s" % (k, to, name),
            diff,
        )
    # By mirror symmetry, the two dipoles are alike
    check(
        abs(one[k + 1] - two[k - 1]) <= 2 * density + slack,
        "the dipoles of traps in phases 1 and 2 are unlike each other",
        one,
        two,
    )
    return one[k + 1] > density, []


# ----------------------------------------------------------------------------


@st.composite
def several(draw):
    """Traps in several pixels, which are pumped one after the other."""
    case = draw(gen.pumping())
    n = gen.n_rows(case)
    w = draw(gen.windows(n)) or [0, n]
    case["parallel"]["window"] = w
    case["default"] = w == [0, n] and draw(st.booleans())
    return case


def run_several(ac, case):
    image = arr(case["image"])
    a, z = case["parallel"]["window"]
    scale = max(image.max(), 1e-300)
    given = copy.deepcopy(case)
    if case["default"]:
        del given["parallel"]["window"]
    out = is_image(b.add(ac, given), image.shape)
    want = image
    for r in range(a, z):
        one = copy.deepcopy(case)
        one["parallel"]["window"] = r
        want = b.add(ac, one, want)
    close(out, b.ref_add(case), "pumped image", 1e-7, scale, 1e-12 * density_total(case))
    close(out, want, "traps in rows %d to %d, against one row after another" % (a, z - 1), 1e-10, scale)
    return moved(image, out) and z - a > 1, ["%d rows" % (z - a)]


RULE = "random pumping experiments; non-trivial if charge moved"
SUBS = [
    Sub("model", lambda t: pumped(), run_model, RULE, 1600, 40000),
    Sub("local", lambda t: gen.pumping(), run_local, RULE, 800, 16000),
    Sub("several", lambda t: several(), run_several, "random pumping experiments; non-trivial if there are traps in several rows and charge moved", 400, 8000),
    Sub("balance", lambda t: balanced(), run_balance, RULE, 800, 16000),
    Sub("dipoles", lambda t: flat_dipoles(), run_dipoles, RULE, 200, 2000),
]
