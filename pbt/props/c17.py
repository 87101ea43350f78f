"""Trap species obey their documented kinetics."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, check

EPS = 1e-12


def agree(x, y, what, rtol=1e-9, atol=1e-12):
    check(
        np.isfinite(x) and abs(x - y) <= rtol * max(abs(x), abs(y)) + atol,
        "%s: %r instead of %r" % (what, x, y),
    )


# ----------------------------------------------------------------------------
# A single lifetime


@st.composite
def single(draw):
    return {
        "trap": draw(st.one_of(gen.instant_trap(), gen.slow_trap())),
        "t": draw(gen.maybe(gen.log_float(-3, 3), 0.0, 6)),
        "dt": draw(gen.maybe(gen.log_float(-3, 3), 0.0, 6)),
        "fill": draw(gen.maybe(st.floats(1e-6, 1.0), 1.0, 6)),
        "n": draw(gen.log_float(-2, 5)),
    }


def run_single(ac, case):
    t = b.trap(ac, case["trap"])
    tau, t1, dt, n = case["trap"]["tau"], case["t"], case["dt"], case["n"]
    fill = t.fill_fraction_from_time_elapsed
    agree(fill(t1), math.exp(-t1 / tau), "fill fraction after %g" % t1)
    agree(fill(t1 + dt), fill(t1) * fill(dt), "fill fraction in two goes")
    agree(
        fill(t.time_elapsed_from_fill_fraction(case["fill"])),
        case["fill"],
        "fill fraction after the time for a fill fraction",
    )
    agree(
        t.electrons_released_from_time_elapsed_and_dwell_time(t1, dt),
        math.exp(-t1 / tau) * -math.expm1(-dt / tau),
        "fraction released between %g and %g later" % (t1, dt),
        atol=1e-15,
    )
    agree(
        t.electrons_released_from_electrons_and_dwell_time(n, dt),
        n * -math.expm1(-dt / tau),
        "electrons released",
        atol=1e-14 * n,
    )
    agree(t.emission_rate * tau, 1.0, "emission rate times release time")
    tau_c = case["trap"].get("tau_c", 0)
    if tau_c == 0:
        check(t.capture_rate == np.inf, "instant capture has rate %r" % t.capture_rate)
    else:
        agree(t.capture_rate * tau_c, 1.0, "capture rate times capture time")
    check(
        t.density == case["trap"]["density"], "density %r instead of given" % t.density
    )
    return t1 > 0 and dt > 0, [case["trap"]["kind"]]


# ----------------------------------------------------------------------------
# A continuum of lifetimes


@st.composite
def continua(draw):
    shape = draw(st.sampled_from(["lognormal", "lognormal", "gamma", "uniform"]))
    return {
        "shape": shape,
        "density": draw(gen.log_float(-2, 3)),
        "mu": draw(gen.log_float(-2, 2.5)),
        "sigma": draw(
            gen.log_float(-2, 0.5)
            if shape == "lognormal"
            else st.sampled_from([0.3, 0.5, 1.0])
        ),
        # relative to mu
        "t": draw(gen.maybe(gen.log_float(-2, 1.5), 0.0, 6)),
        "dt": draw(gen.log_float(-2, 1.5)),
        "fill": draw(st.floats(0.01, 0.99)),
    }


def densities_of(case):
    """(probability density, quadrature nodes in timescale, weights)"""
    shape, mu, sigma = case["shape"], case["mu"], case["sigma"]
    if shape == "lognormal":
        z = np.linspace(-9, 9, 2001)
        w = np.exp(-0.5 * z ** 2)
        return None, mu * np.exp(sigma * z), w / w.sum()
    if shape == "gamma":
        # Mean mu, of shape parameter k
        k = 1 / sigma ** 2

        def pdf(x, mu, sigma):
            y = k * x / mu
            return np.exp(k * np.log(y) - y - math.lgamma(k)) / x

        u = np.linspace(-60, 8, 20001)
        x = mu * np.exp(u)
        w = pdf(x, mu, sigma) * x
        return pdf, x, w / w.sum()

    # Smooth bump between limits: (1 - ((ln x - ln mu) / (3 sigma))^2)^2
    def bump(x, mu, sigma):
        y = (np.log(x) - np.log(mu)) / (3 * sigma)
        return np.where(np.abs(y) < 1, (1 - y ** 2) ** 2, 0.0) / (
            x * 3 * sigma * 16 / 15
        )

    y = np.linspace(-1, 1, 20001)
    w = (1 - y ** 2) ** 2
    return bump, mu * np.exp(3 * sigma * y), w / w.sum()


def run_continua(ac, case):
    mu, sigma = case["mu"], case["sigma"]
    pdf, x, w = densities_of(case)
    if pdf is None:
        t = ac.TrapLogNormalLifetimeContinuum(
            density=case["density"],
            release_timescale_mu=mu,
            release_timescale_sigma=sigma,
        )
    else:
        t = ac.traps.TrapLifetimeContinuumAbstract(
            density=case["density"],
            distribution_of_traps_with_lifetime=pdf,
            release_timescale_mu=mu,
            release_timescale_sigma=sigma,
        )
    t1, dt = case["t"] * mu, case["dt"] * mu
    fill = t.fill_fraction_from_time_elapsed
    tol = 3e-6
    expect = lambda time: float(np.dot(w, np.exp(-time / x)))
    agree(fill(0.0), 1.0, "fill fraction at first", tol)
    agree(fill(t1), expect(t1), "fill fraction after %g" % t1, 0, tol)
    agree(fill(t1 + dt), expect(t1 + dt), "fill fraction after %g" % (t1 + dt), 0, tol)
    check(fill(t1 + dt) <= fill(t1) + tol, "fill fraction rises with time")
    agree(
        t.electrons_released_from_time_elapsed_and_dwell_time(t1, dt),
        expect(t1) - expect(t1 + dt),
        "fraction released between %g and %g later" % (t1, dt),
        0,
        tol,
    )
    time = t.time_elapsed_from_fill_fraction(case["fill"])
    agree(expect(time), case["fill"], "fill fraction at its own time", 0, tol)
    agree(
        t.electrons_released_from_electrons_and_dwell_time(7.0, dt),
        7 * (1 - expect(dt)),
        "electrons released",
        0,
        7 * tol,
    )
    return True, [case["shape"]]


# ----------------------------------------------------------------------------
# Simultaneous capture and release


@st.composite
def rates(draw):
    return {
        "traps": draw(
            st.lists(
                gen.slow_trap(tau_c=gen.maybe(gen.log_float(-3, 2), 0.0, 2)),
                min_size=1,
                max_size=4,
            )
        ),
        "t": draw(gen.log_float(-3, 3)),
        "dt": draw(gen.log_float(-3, 3)),
    }


def run_rates(ac, case):
    m = ac.trap_managers.TrapManager(
        traps=[b.trap(ac, s) for s in case["traps"]], max_n_transfers=3
    )
    out = {}
    for name, time in (
        ("t", case["t"]),
        ("dt", case["dt"]),
        ("sum", case["t"] + case["dt"]),
    ):
        e, f, r = m.fill_probabilities_from_dwell_time(time)
        out[name] = (np.array(e), np.array(f), np.array(r))
        for i, s in enumerate(case["traps"]):
            re = 1 / s["tau"]
            if s["tau_c"] == 0:
                want = (1.0, 1.0)
            else:
                rc = 1 / s["tau_c"]
                x = -math.expm1(-(rc + re) * time) / (rc + re)
                want = (rc * x, 1 - re * x)
            agree(e[i], want[0], "empty traps filled in %g, species %d" % (time, i))
            agree(f[i], want[1], "full traps still full in %g, species %d" % (time, i))
            agree(r[i], math.exp(-re * time), "full traps left in %g without charge" % time)
            check(
                -EPS <= e[i] <= f[i] + EPS and f[i] <= 1 + EPS,
                "probabilities %r from empty, %r from full" % (e[i], f[i]),
            )
    e1, f1, r1 = out["t"]
    e2, f2, r2 = out["dt"]
    e, f, r = out["sum"]
    for i in range(len(case["traps"])):
        agree(e[i], e1[i] * f2[i] + (1 - e1[i]) * e2[i], "empty traps, in two goes")
        agree(f[i], f1[i] * f2[i] + (1 - f1[i]) * e2[i], "full traps, in two goes")
        agree(r[i], r1[i] * r2[i], "release, in two goes")
    slow = any(s["tau_c"] > 0 for s in case["traps"])
    return slow, ["slow" if slow else "instant"]


# ----------------------------------------------------------------------------
# Effect on the shapes of galaxies (Israel et al. 2015)


@st.composite
def ellipticities(draw):
    return {
        "groups": draw(
            gen.groups(kinds=("instant", "slow", "continuum"), max_groups=1, max_species=4)
        ),
        "factor": draw(gen.log_float(-2, 2)),
    }


def run_ellipticity(ac, case):
    (specs,) = case["groups"]
    total = 0.0
    for s in specs:
        x = math.log(s["tau"])
        d = s["density"] * (
            0.05333
            + 0.03357 * math.atan((x - 1.628) / 0.2951)
            + 0.09901 * math.exp(-0.5 * ((x - 0.4553) / 0.4132) ** 2)
        )
        agree(b.trap(ac, s).delta_ellipticity, d, "ellipticity from one species", 1e-9, 1e-12 * s["density"])
        more = dict(s, density=s["density"] * case["factor"])
        agree(
            b.trap(ac, more).delta_ellipticity,
            d * case["factor"],
            "ellipticity from %g times as many traps" % case["factor"],
            1e-9,
            1e-12 * more["density"],
        )
        total += d
    kind = specs[0]["kind"]
    cls = {
        "instant": "TrapManagerInstantCapture",
        "slow": "TrapManager",
        "continuum": "TrapManagerTrackTime",
    }[kind]
    m = getattr(ac.trap_managers, cls)(
        traps=[b.trap(ac, s) for s in specs], max_n_transfers=2
    )
    size = sum(s["density"] for s in specs)
    agree(m.delta_ellipticity, total, "ellipticity from all species", 1e-9, 1e-12 * size)
    return len(specs) > 1, [kind]


RULE = "random species and times; non-trivial if some time passes"
SUBS = [
    Sub("single", lambda t: single(), run_single, RULE, 2400, 40000),
    Sub("continuum", lambda t: continua(), run_continua, "random distribution, against "
        "a fixed-grid quadrature; always non-trivial", 400, 6000),
    Sub("rates", lambda t: rates(), run_rates, "random rates; non-trivial with a finite capture time", 1600, 24000),
    Sub("ellipticity", lambda t: ellipticities(), run_ellipticity, "non-trivial with more than one species", 800, 8000),
]
