"""Settings: changed later or given at first is the same; wrong ones are refused."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, Violation, arr, check, close, is_image, moved

# ----------------------------------------------------------------------------
# Changed later


@st.composite
def changed(draw):
    if draw(st.integers(0, 4)) == 4:
        case = draw(gen.pumping(max_rows=5))
    else:
        case = draw(
            gen.supported(
                max_rows=6,
                max_cols=2,
                serial=False,
                roe_kinds=("standard", "injection", "standard"),
            )
        )
    p = case["parallel"]
    n = len(p["ccd"]["fractions"])
    kind = p["roe"]["kind"]
    # Often with another number of phases at first
    n_ccd = draw(st.sampled_from([n, n, 1, 2, 3]))
    n_roe = draw(st.sampled_from([n, n, 1, 2, 3]))
    away = st.booleans() if kind != "pump" else st.just(False)
    case["before"] = {
        "ccd": draw(gen.ccds(n_ccd)),
        "roe": draw(gen.roes(n_roe, kinds=(kind,), away=away)),
        "density": draw(gen.densities()),
        "tau": draw(gen.log_float(0.05, 20)),
        "tau_c": draw(gen.log_float(0.05, 5)),
    }
    case["used"] = draw(st.booleans())
    case["order"] = draw(st.permutations(["full_well_depth", "well_notch_depth", "well_fill_power"]))
    case["roe_order"] = draw(st.permutations(["dwell", "away", "dtype", "first", "between", "number"]))
    return case


def run_changed(ac, case):
    p, old = case["parallel"], case["before"]
    image = arr(case["image"])
    want = is_image(b.add(ac, case), image.shape)

    # Made with some other settings, and then set to those of the case
    ccd = b.ccd(ac, old["ccd"])
    new = b.ccd(ac, p["ccd"])
    final = b.traps(ac, p["groups"])
    others = copy.deepcopy(p["groups"])
    for g in others:
        for spec in g:
            spec["density"] = old["density"]
            if spec["kind"] != "continuum":
                spec["tau"] = old["tau"]
            if spec["kind"] == "slow":
                spec["tau_c"] = old["tau_c"]
    traps = b.traps(ac, others)
    roe = b.roe(ac, old["roe"])
    r = p["roe"]
    kind = r["kind"]
    both = [(t, f) for g, h in zip(traps, final) for t, f in zip(g, h)]
    if case["used"]:
        # Use them, which must not fix any of their settings
        for phase in range(ccd.n_phases):
            ccd.well_filling_function(phase)(100.0)
            ccd.cloud_fractional_volume_from_n_electrons_and_phase(100.0, phase)
        if kind != "pump":
            roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                pixels=image.shape[0], express=p["express"], offset=p["offset"]
            )
        if ccd.n_phases == roe.n_phases:
            args = b.kwargs(ac, case)
            args.update(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=traps)
            args.pop("time_window_range", None)
            if kind != "injection":
                ac.add_cti(image=image.copy(), **args)
    ccd.fraction_of_traps_per_phase = p["ccd"]["fractions"]
    values = {
        "full_well_depth": p["ccd"]["full_well"],
        "well_notch_depth": p["ccd"]["notch"],
        "well_fill_power": p["ccd"]["power"],
    }
    for name in case["order"]:
        setattr(ccd, name, values[name])
    check(ccd.n_phases == new.n_phases, "%d phases" % ccd.n_phases)
    for name in values:
        check(
            getattr(ccd, name) == getattr(new, name),
            "%s is %r instead of %r" % (name, getattr(ccd, name), getattr(new, name)),
        )
    for name in case["roe_order"]:
        if name == "dwell":
            roe.dwell_times = list(r["dwell"])
        elif name == "dtype":
            roe.express_matrix_dtype = int if r["as_int"] else float
        elif name == "away" and kind != "pump":
            roe.force_release_away_from_readout = r["away"]
        elif name == "between" and kind != "pump":
            roe.empty_traps_between_columns = r["between"]
        elif name == "first" and kind != "injection":
            roe.empty_traps_for_first_transfers = r["first"]
        elif name == "number" and kind == "injection":
            roe.n_pixel_transfers = r["n_transfers"]
        elif name == "number" and kind == "pump":
            roe.n_pumps = r["n_pumps"]
    for t, f in both:
        t.density = f.density
        t.release_timescale = f.release_timescale
        t.capture_timescale = f.capture_timescale
    kw = b.kwargs(ac, case)
    kw.update(parallel_ccd=ccd, parallel_roe=roe, parallel_traps=traps)
    got = is_image(np.asarray(ac.add_cti(image=image, **kw)), image.shape)
    close(got, want, "settings changed after construction", 1e-12, max(image.max(), 1e-300))
    return moved(image, want), [
        kind,
        "used before" if case["used"] else "not used before",
        "other number of steps" if len(old["roe"]["dwell"]) != len(r["dwell"]) else "same number of steps",
        "other release rule" if old["roe"]["away"] != r["away"] else "same release rule",
    ]


# ----------------------------------------------------------------------------
# Refused


@st.composite
def wrong(draw):
    n = draw(st.integers(1, 5))
    return {
        "what": draw(
            st.sampled_from(
                ["full_well_depth", "well_notch_depth", "well_fill_power", "well_bloom_level"] * 2
                + ["dtype", "pumping", "densities"]
            )
        ),
        "phases": n,
        "length": draw(st.integers(1, 7).filter(lambda k: k != n)),
        "later": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["bool", "complex", "str", "None", "float32", "int64", "1", "'int'"])),
    }


def refused(call, kinds, what):
    try:
        call()
    except kinds:
        return
    raise Violation("accepted " + what)


def run_wrong(ac, case):
    what, n, k = case["what"], case["phases"], case["length"]
    if what == "dtype":
        value = {
            "bool": bool,
            "complex": complex,
            "str": str,
            "None": None,
            "float32": np.float32,
            "int64": np.int64,
            "1": 1,
            "'int'": "int",
        }[case["dtype"]]
        for cls in (ac.ROE, ac.ROEChargeInjection):
            refused(lambda: cls(express_matrix_dtype=value), ValueError, "type " + case["dtype"])
        refused(
            lambda: ac.ROETrapPumping(express_matrix_dtype=value), ValueError, "type " + case["dtype"]
        )
        roe = ac.ROE(express_matrix_dtype=int)
        refused(lambda: setattr(roe, "express_matrix_dtype", value), ValueError, "type " + case["dtype"])
        check(roe.express_matrix_dtype is int, "refused, but changed")
        return True, [what]
    if what == "pumping":
        odd = [1.0] * (2 * (k // 2) + 1)
        refused(lambda: ac.ROETrapPumping(dwell_times=odd), Exception, "%d pumping steps" % len(odd))
        even = ac.ROETrapPumping(dwell_times=[1.0] * (2 * n))
        check(even.n_phases == n and even.n_steps == 2 * n, "%d phases" % even.n_phases)
        refused(lambda: setattr(even, "dwell_times", odd), Exception, "%d pumping steps" % len(odd))
        check(list(even.dwell_times) == [1.0] * (2 * n), "refused, but changed")
        check(even.n_phases == n and even.n_steps == 2 * n, "refused, but %d steps" % even.n_steps)
        return True, [what]
    if what == "densities":
        m = ac.TrapManager(traps=[ac.Trap(density=2.0) for _ in range(n)], max_n_transfers=1)
        refused(
            lambda: setattr(m, "n_traps_per_pixel", [1.0] * k),
            ValueError,
            "%d densities of %d species" % (k, n),
        )
        check(list(m.n_traps_per_pixel) == [2.0] * n, "refused, but changed")
        m.n_traps_per_pixel = [float(i) for i in range(n)]
        check(list(m.n_traps_per_pixel) == [float(i) for i in range(n)], "densities not set")
        return True, [what]
    fractions = [1.0 / n] * n
    values = [100.0] * k
    if case["later"]:
        ccd = ac.CCD(fraction_of_traps_per_phase=fractions)
        before = list(getattr(ccd, what))
        refused(lambda: setattr(ccd, what, values), ValueError, "%d values of %s in %d phases" % (k, what, n))
        check(list(getattr(ccd, what)) == before, "refused, but changed")
    else:
        refused(
            lambda: ac.CCD(fraction_of_traps_per_phase=fractions, **{what: values}),
            ValueError,
            "%d values of %s in %d phases" % (k, what, n),
        )
    # As many values as phases, or one for all of them, are accepted
    for values in ([100.0 + i for i in range(n)], 100.0):
        for ccd in (
            ac.CCD(fraction_of_traps_per_phase=fractions, **{what: values}),
            ac.CCD(fraction_of_traps_per_phase=fractions),
        ):
            setattr(ccd, what, values)
            want = values if isinstance(values, list) else [values] * n
            check(list(getattr(ccd, what)) == want, "%s not set" % what)
            one = ac.CCDPhase(ccd, n - 1)
            check(getattr(one, what) == want[-1], "%s of the last phase is wrong" % what)
    return True, [what]


SUBS = [
    Sub("changed", lambda t: changed(), run_changed, "random settings changed after construction; non-trivial if charge moved", 1200, 20000),
    Sub("refused", lambda t: wrong(), run_wrong, "random wrong settings; always non-trivial", 400, 4000),
]
