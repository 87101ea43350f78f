"""The preset model of HST ACS follows its published calibration."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, Violation, arr, check, close, is_image, moved

LAUNCH, COOLED, REPAIRED = 2452334.5, 2453920.0, 2454968.0

EDGES = [
    LAUNCH,
    LAUNCH + 0.5,
    COOLED - 1e-3,
    COOLED,
    COOLED + 1,
    REPAIRED - 1e-3,
    REPAIRED,
    REPAIRED + 1,
]


def dates():
    return st.one_of(
        st.sampled_from(EDGES),
        st.tuples(
            st.sampled_from([LAUNCH, COOLED, REPAIRED]),
            st.sampled_from([-1.0, 1.0]),
            gen.log_float(-6, 1.5),
        ).map(lambda x: max(LAUNCH, x[0] + x[1] * x[2])),
        st.floats(LAUNCH, 2460000.0).map(lambda x: round(x, 3)),
        st.floats(COOLED - 300, REPAIRED + 300).map(lambda x: round(x, 3)),
        st.integers(2452335, 2470000).map(float),
    )


def expected(date):
    """[(density, release time)] of the three species."""
    days = date - LAUNCH
    if date >= REPAIRED:
        total = 1.011 * (5.5898e-4 * days - 0.246591)
    else:
        total = 3.5488e-4 * days + 0.017845
    warm = 4.0 if date < COOLED else 0.0
    cold = 192.15
    t = cold + warm
    out = []
    for share, time, energy in ((127, 0.74, 0.31), (338, 7.7, 0.34), (285, 37.0, 0.44)):
        # Arrhenius' law, relative to the operating temperature since 2006
        tau = time * t / cold * math.exp(energy / 8.617343e-5 * (1 / cold - 1 / t))
        out.append((total * share / 750.0, tau))
    return out


@st.composite
def cases(draw):
    return {
        "date": draw(dates()),
        "image": draw(gen.images(6, 2)),
        "offset": draw(st.sampled_from([0, 1, 5])),
        "express": draw(st.integers(0, 3)),
    }


def run(ac, case):
    date = case["date"]
    traps, ccd, roe = ac.model_for_HST_ACS(date=date)
    want = expected(date)
    check(len(traps) == len(want), "%d species of traps" % len(traps))
    for t, (density, tau) in zip(traps, want):
        check(
            abs(t.density - density) <= 1e-9 * abs(density) + 1e-12,
            "density %r instead of %r" % (t.density, density),
        )
        check(
            abs(t.release_timescale - tau) <= 1e-9 * tau,
            "release time %r instead of %r" % (t.release_timescale, tau),
        )
        check(
            isinstance(t, ac.TrapInstantCapture), "species is a %s" % type(t).__name__
        )
    # How wells fill
    for n in (0, 1, 100, 3.7e4, 84700, 1e5):
        v = ccd.cloud_fractional_volume_from_n_electrons_and_phase(n, 0)
        w = ref.cloud_volume(n, 84700.0, 0.0, 0.478)
        check(abs(v - w) <= 1e-12, "volume %r of %r electrons, not %r" % (v, n, w))
    check(ccd.n_phases == 1, "%d phases" % ccd.n_phases)
    # Ready for use
    image = arr(case["image"])
    out = is_image(
        np.asarray(
            ac.add_cti(
                image=image.copy(),
                parallel_traps=traps,
                parallel_ccd=ccd,
                parallel_roe=roe,
                parallel_offset=case["offset"],
                parallel_express=case["express"],
            )
        ),
        image.shape,
    )
    model = ref.clock(
        image,
        {"fractions": [1], "full_well": [84700.0], "notch": [0.0], "power": [0.478]},
        {"kind": "standard", "dwell": [1.0], "first": True, "between": True, "away": True, "as_int": False},
        [("instant", [{"density": d, "tau": t} for d, t in want])],
        case["express"],
        case["offset"],
        range(image.shape[0]),
        range(image.shape[1]),
    )
    close(out, model, "image with CTI at %r" % date, 1e-7, max(image.max(), 1e-300))
    era = "hot" if date < COOLED else "cold" if date < REPAIRED else "repaired"
    return moved(image, out), [era]


@st.composite
def pairs(draw):
    a, b = sorted([draw(dates()), draw(dates())])
    return {"first": a, "second": b, "level": draw(gen.log_float(1, 4.5))}


def run_damage(ac, case):
    """Radiation damage builds up: more traps, never fewer."""
    a, b = case["first"], case["second"]

    def traps(date):
        return ac.model_for_HST_ACS(date=date)[0]

    for t, u in zip(traps(a), traps(b)):
        check(
            u.density >= t.density - 1e-12 and t.density > 0,
            "density %r at %r but %r at %r" % (t.density, a, u.density, b),
        )
        check(t.release_timescale > 0, "release time %r" % t.release_timescale)

    image = np.zeros((4, 1))
    image[2] = case["level"]

    def trailed(date):
        t, ccd, roe = ac.model_for_HST_ACS(date=date)
        return ac.add_cti(
            image=image.copy(), parallel_traps=t, parallel_ccd=ccd, parallel_roe=roe
        )[2, 0]

    check(
        trailed(b) <= trailed(a) + 1e-9 * case["level"],
        "a source is less damaged at the later date %r than at %r" % (b, a),
        trailed(a),
        trailed(b),
    )
    return a < b, []


@st.composite
def early(draw):
    return {"date": draw(st.floats(2.4e6, LAUNCH - 1e-3))}


def run_early(ac, case):
    try:
        ac.model_for_HST_ACS(date=case["date"])
    except AssertionError:
        return True, []
    raise Violation("a model for %r, before the launch" % case["date"])


RULE = "random Julian dates, with those of changes; non-trivial if charge moved"


def run_edges(ac, case):
    """All of the days on which something changes, in every run."""
    for date in EDGES + [x + 0.25 for x in EDGES]:
        run(ac, dict(case, date=date))
    return run(ac, dict(case, date=REPAIRED))


SUBS = [
    Sub("edges", lambda t: cases(), run_edges, "every day of a change; non-trivial if charge moved", 40, 200),
    Sub("preset", lambda t: cases(), run, RULE, 800, 12000),
    Sub("damage", lambda t: pairs(), run_damage, "pairs of dates; non-trivial if they differ", 600, 8000),
    Sub("launch", lambda t: early(), run_early, "dates before launch", 100, 1000),
]
