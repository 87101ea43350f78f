"""More damage does more harm: to a lone source on an empty background."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, check, is_image


@st.composite
def sources(draw):
    express = draw(st.integers(0, 4))
    # (with several phases, charge released into a later one may come back; and
    # an express multiplier can exaggerate that)
    n_phases = 1 if express or draw(st.booleans()) else draw(st.integers(2, 4))
    groups = draw(gen.groups(max_groups=1, max_species=2, density=gen.log_float(-2, 3)))
    what = ["density", "full_well", "species", "level"]
    if n_phases == 1:
        what.append("dwell")
    if groups[0][0]["kind"] == "slow":
        what.append("capture")
    if express == 0:
        what += ["offset", "source"]
    what = draw(st.sampled_from(what))
    # (so that the loss n - k V(n) never falls as n rises)
    power = st.floats(0.2, 1.0 if what == "level" else 1.5)
    case = {
        "rows": draw(st.integers(1, 8)),
        "level": draw(gen.log_float(0, 4.7)),
        "parallel": {
            "ccd": {
                "fractions": [1 / n_phases] * n_phases,
                "full_well": draw(gen.log_float(3, 5)),
                "notch": 0.0,
                "power": draw(power.map(lambda x: float("%.6g" % x))),
            },
            "roe": draw(
                gen.roes(
                    n_phases,
                    kinds=("standard", "standard", "injection"),
                    first=st.just(True),
                    away=st.booleans(),
                    zeros=False,
                )
            ),
            "groups": groups,
            "express": express,
            "offset": draw(st.integers(0, 3)),
        },
        "serial": draw(st.booleans()),
        "by": draw(gen.log_float(0.02, 1.5)),
        "what": what,
    }
    if case["parallel"]["roe"]["kind"] == "injection":
        case["parallel"]["roe"]["n_transfers"] = None
    case["at"] = draw(st.integers(0, case["rows"] - 1))
    return case


def left(ac, case):
    """(image, what is left of the source)"""
    image = np.zeros((case["rows"], 1))
    image[case["at"]] = case["level"]
    if case["serial"]:
        out = ac.add_cti(image=image.T.copy(), **b.direction(ac, case["parallel"], "serial"))
        out = np.asarray(out).T
    else:
        out = ac.add_cti(image=image, **b.direction(ac, case["parallel"], "parallel"))
        out = np.asarray(out)
    is_image(out, image.shape)
    return out[case["at"], 0]


def tags(case, what):
    roe = case["parallel"]["roe"]
    return [what, roe["kind"], "one phase" if len(roe["dwell"]) == 1 else "several phases"]


def run(ac, case):
    by, what = case["by"], case["what"]
    worse = copy.deepcopy(case)
    p = worse["parallel"]
    better, level = left(ac, case), case["level"]
    slack = 1e-9 * max(level, max(t["density"] for t in p["groups"][0]) * 1e-3)
    if what == "density":
        for t in p["groups"][0]:
            t["density"] *= by
    elif what == "full_well":
        # The same charge spreads further in a shallower well
        p["ccd"]["full_well"] /= by
    elif what == "species":
        p["groups"][0].append(dict(p["groups"][0][0], density=by))
    elif what == "capture":
        for t in p["groups"][0]:
            t["tau_c"] /= by
    elif what == "dwell":
        if case["parallel"]["groups"][0][0]["kind"] == "instant":
            what = "dwell (instant)"
        p["roe"]["dwell"] = [d * by for d in p["roe"]["dwell"]]
    elif what == "offset":
        p["offset"] += int(np.ceil(by))
    elif what == "level":
        # A brighter source loses more, but less of a fraction of itself
        worse["level"] *= by
        more = left(ac, worse)
        check(
            more / worse["level"] >= better / level - 1e-9,
            "a source of %r keeps %r of itself, but one of %r only %r"
            % (level, better / level, worse["level"], more / worse["level"]),
        )
        check(more >= better - slack, "%r is left of %r, but %r of %r" % (more, worse["level"], better, level))
        return better < level * (1 - 1e-6), tags(case, what)
    elif what == "source":
        # Further from the readout
        worse["rows"] += 1
        worse["at"] += 1
    harm = left(ac, worse)
    check(
        harm <= better + slack,
        "with more (%s by %r), %r is left of %r instead of %r"
        % (what, by, harm, level, better),
    )
    check(-slack <= harm and better <= level + slack, "the source gained")
    return better < level * (1 - 1e-6), tags(case, what)


RULE = "lone sources and pairs of settings; non-trivial if the source lost charge"
SUBS = [Sub("severity", lambda t: sources(), run, RULE, 3000, 60000)]
