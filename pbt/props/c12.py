"""Results do not depend on the units of charge and time."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, is_image, moved


def scaled(v, s):
    return [x * s for x in v] if isinstance(v, list) else v * s


def in_units(case, electron=1.0, second=1.0):
    case = copy.deepcopy(case)
    case["image"] = [[v * electron for v in row] for row in case["image"]]
    for name in ("parallel", "serial"):
        d = case.get(name)
        if d is None:
            continue
        d["ccd"]["full_well"] = scaled(d["ccd"]["full_well"], electron)
        d["ccd"]["notch"] = scaled(d["ccd"]["notch"], electron)
        d["roe"]["dwell"] = scaled(d["roe"]["dwell"], second)
        for g in d["groups"]:
            for t in g:
                t["density"] *= electron
                t["tau"] *= second
                if "tau_c" in t:
                    t["tau_c"] *= second
    return case


@st.composite
def cases(draw, pump=False, continuum=False):
    if pump:
        case = draw(gen.pumping())
    elif continuum:
        case = draw(
            gen.supported(continuum=True, max_rows=3, max_cols=1, serial=False, max_phases=2)
        )
    else:
        case = draw(gen.supported(max_rows=7, max_cols=3))
    factor = st.sampled_from(
        [2.0, 0.5, 1024.0, 3.0, 0.1, 1.7, 1e-3, 1e4, 1e-9, 1e9, 2.0 ** -50, 2.0 ** 50, 1e-18, 1e16]
    )
    unit = st.sampled_from(["electron", "second", "both"])
    u = draw(unit)
    case["electron"] = draw(factor) if u != "second" else 1.0
    case["second"] = draw(factor) if u != "electron" else 1.0
    if continuum:
        case["second"] = draw(st.sampled_from([1.0, 2.0, 0.1, 30.0]))
    return case


def run(tolerance):
    def run(ac, case):
        image = arr(case["image"])
        out = is_image(b.add(ac, case), image.shape)
        e, s = case["electron"], case["second"]
        new = b.add(ac, in_units(case, e, s))
        close(
            new / e,
            out,
            "electrons x %g and times x %g" % (e, s),
            tolerance,
            max(image.max(), 1e-300),
        )
        return moved(image, out), []

    return run


@st.composite
def removal(draw):
    case = draw(cases())
    case["iterations"] = draw(st.integers(1, 3))
    return case


def run_removal(ac, case):
    image = arr(case["image"])
    i = case["iterations"]
    out = np.asarray(ac.remove_cti(image=image.copy(), iterations=i, **b.kwargs(ac, case)))
    e, s = case["electron"], case["second"]
    new_case = in_units(case, e, s)
    new = ac.remove_cti(image=arr(new_case["image"]), iterations=i, **b.kwargs(ac, new_case))
    close(np.asarray(new) / e, out, "correction in other units", 1e-6,
          max(np.abs(out).max(), image.max(), 1e-300))
    return moved(image, out), []


RULE = (
    "random images and all options, in two systems of units; non-trivial if CTI "
    "changed the image"
)
SUBS = [
    Sub("units", lambda t: cases(), run(1e-7), RULE, 2000, 30000),
    Sub("pumping", lambda t: cases(pump=True), run(1e-7), RULE, 400, 6000),
    Sub("removal", lambda t: removal(), run_removal, RULE, 240, 4000),
    Sub("continuum", lambda t: cases(continuum=True), run(1e-4), RULE, 48, 600),
]
