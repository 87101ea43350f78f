"""Poisson realisations of the traps in each column."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, check, close, is_image, moved


@st.composite
def cases(draw):
    kinds = ("instant", "slow", "continuum")
    species = draw(
        st.lists(
            gen.group(kinds, 1, st.one_of(gen.log_float(-2, 3), st.just(0.0))),
            min_size=1,
            max_size=4,
        )
    )
    return {
        "traps": [g[0] for g in species],
        "shape": [draw(st.integers(1, 200)), draw(st.integers(1, 12))],
        "seed": draw(st.integers(0, 2 ** 32 - 1)),
        "other": draw(st.integers(0, 2 ** 32 - 1)),
    }


def attributes(t):
    return {k: v for k, v in vars(t).items() if k != "density"}


def run(ac, case):
    species = [b.trap(ac, s) for s in case["traps"]]
    before = [dict(vars(t)) for t in species]
    shape = tuple(case["shape"])
    rows, cols = shape
    make = lambda seed: ac.Trap.poisson_trap(trap=species, shape=shape, seed=seed)
    out = make(case["seed"])
    check(
        len(out) == cols * len(species),
        "%d traps for %d columns of %d species" % (len(out), cols, len(species)),
    )
    for i, t in enumerate(out):
        s = species[i % len(species)]
        n = t.density * rows
        check(
            n >= 0 and abs(n - round(n)) <= 1e-9 * max(n, 1),
            "%r traps in a column of %d pixels" % (n, rows),
        )
        check(
            type(t) is type(s) and attributes(t) == attributes(s),
            "a realisation of %r differs from it in more than density" % case["traps"][i % len(species)],
            attributes(t),
        )
        # Within 12 standard deviations, or so
        mean = s.density * rows
        check(
            abs(n - mean) <= 12 * np.sqrt(mean) + 20,
            "%r traps in a column where %r are expected" % (n, mean),
        )
    again = make(case["seed"])
    check(
        [t.density for t in out] == [t.density for t in again],
        "the same seed gave different traps",
    )
    for t, d in zip(species, before):
        check(vars(t) == d, "the species themselves were changed")
    big = sum(s.density * rows > 20 for s in species) * cols
    if big >= 6 and case["seed"] != case["other"]:
        check(
            [t.density for t in out] != [t.density for t in make(case["other"])],
            "different seeds gave the same traps",
        )
    return len(species) > 1 and cols > 1, sorted({s["kind"] for s in case["traps"]})


# ----------------------------------------------------------------------------


@st.composite
def statistics(draw):
    return {
        "density": draw(gen.log_float(-1, 2)),
        "rows": draw(st.integers(1, 300)),
        "seed": draw(st.integers(0, 10 ** 6)),
    }


def run_statistics(ac, case):
    """Mean and variance are those of a Poisson distribution."""
    t = ac.TrapInstantCapture(density=case["density"], release_timescale=1.0)
    n = 4000
    rows = case["rows"]
    out = ac.Trap.poisson_trap(trap=[t], shape=(rows, n), seed=case["seed"])
    total = np.array([x.density for x in out]) * rows
    mean = case["density"] * rows
    # Seven standard errors
    check(
        abs(total.mean() - mean) <= 7 * np.sqrt(mean / n),
        "mean of %r traps instead of %r" % (total.mean(), mean),
    )
    error = np.sqrt((mean + 2 * mean ** 2) / n)
    check(
        abs(total.var() - mean) <= 8 * error,
        "variance of %r traps instead of %r" % (total.var(), mean),
    )
    return True, []


# ----------------------------------------------------------------------------


@st.composite
def used(draw):
    (group,) = draw(gen.groups(max_groups=1, density=gen.log_float(-1, 2)))
    return {
        "group": group,
        "image": draw(gen.images(6, 3)),
        "ccd": draw(gen.ccds(1)),
        "seed": draw(st.integers(0, 1000)),
    }


def run_used(ac, case):
    """Each column can be given its own realisation, which then act as any
    species of those densities."""
    image = np.array(case["image"])
    species = [b.trap(ac, s) for s in case["group"]]
    n = len(species)
    out = ac.Trap.poisson_trap(trap=species, shape=image.shape, seed=case["seed"])
    ccd = b.ccd(ac, case["ccd"])
    did = False
    for c in range(image.shape[1]):
        mine = out[c * n : (c + 1) * n]
        got = is_image(
            np.asarray(
                ac.add_cti(image=image, parallel_traps=mine, parallel_ccd=ccd, parallel_window_range=range(image.shape[0]), serial_window_range=range(c, c + 1))
            ),
            image.shape,
        )
        plain = [
            b.trap(ac, dict(s, density=t.density)) for s, t in zip(case["group"], mine)
        ]
        want = np.asarray(
            ac.add_cti(image=image, parallel_traps=plain, parallel_ccd=ccd, serial_window_range=range(c, c + 1))
        )
        close(got, want, "column %d with its own traps" % c, 1e-12, max(image.max(), 1e-300))
        did = did or moved(image, got)
    return did and image.shape[1] > 1, []


RULE = "random species and image shapes; non-trivial with several species and columns"
SUBS = [
    Sub("draw", lambda t: cases(), run, RULE, 1200, 16000),
    Sub("statistics", lambda t: statistics(), run_statistics, "4000 columns each; always non-trivial", 80, 600),
    Sub("used", lambda t: used(), run_used, "non-trivial if charge moved in several columns", 300, 4000),
]
