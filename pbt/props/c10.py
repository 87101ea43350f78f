"""Express: fewer computed transfers always stand for all of the real ones."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen, ref
from pbt.core import Sub, arr, check, close, fmt, is_image, moved

PLAN = "express_matrix_and_monitor_traps_matrix_from_pixels_and_express"
SAVE = "save_trap_states_matrix_from_express_matrix"


@st.composite
def plans(draw):
    roe = draw(gen.roes(1, kinds=("standard", "standard", "injection", "pump"), zeros=False))
    if roe["kind"] == "injection":
        roe["n_transfers"] = draw(st.one_of(st.none(), st.integers(1, 30)))
    n = draw(st.integers(1, 30))
    window = draw(gen.windows(n))
    if roe["kind"] == "pump":
        roe["n_pumps"] = draw(st.integers(1, 40))
    return {
        "roe": roe,
        "pixels": n,
        "window": window,
        "express": draw(st.integers(0, 33)),
        "offset": draw(st.sampled_from([0, 0, 1, 3, 20, 500])),
    }


@st.composite
def large_plans(draw):
    """As many transfers as real detectors have."""
    case = draw(plans())
    n = draw(st.integers(300, 2400))
    case["pixels"] = n
    case["offset"] = draw(st.sampled_from([0, 0, 1, 24, 500]))
    if case["window"] is not None:
        a = draw(st.integers(0, n - 1))
        case["window"] = [a, min(n, a + draw(st.integers(1, 9)))]
    total = n + case["offset"]
    if case["roe"]["kind"] == "injection":
        total = case["roe"]["n_transfers"] = draw(st.integers(300, 2400))
    if case["roe"]["kind"] == "pump":
        total = case["roe"]["n_pumps"] = draw(st.integers(300, 20000))
        case["pixels"] = n = draw(st.integers(1, 30))
        w = case["window"]
        if w is not None:
            case["window"] = [w[0] % n, min(n, w[0] % n + w[1] - w[0])]
    # Close to where each transfer stands for one more
    near = total // draw(st.sampled_from([1, 1, 2, 3, 4, 10]))
    express = max(1, near + draw(st.integers(-2, 2)))
    if case["roe"]["kind"] == "pump" and express > 100:
        express = draw(st.integers(1, 100))
    case["express"] = express
    return case


def run_plan(ac, case):
    r = case["roe"]
    roe = b.roe(ac, r)
    n, offset, express = case["pixels"], case["offset"], case["express"]
    if r["kind"] == "pump":
        # A pixel with traps, or several
        w = case["window"]
        pixels = n if w is None else list(range(*w))
        rows = [n] if w is None else list(range(*w))
        offset = 0
        real = np.array([r["n_pumps"]] * len(rows))
    else:
        w = case["window"]
        pixels = n if w is None else range(*w)
        rows = list(range(n)) if w is None else list(range(*w))
        real = np.array(rows) + 1 + offset
        if r["kind"] == "injection":
            m = r["n_transfers"]
            real = 0 * real + (rows[-1] + 1 + offset if m is None else m)
    plan, monitor = getattr(roe, PLAN)(pixels=pixels, express=express, offset=offset)
    plan, monitor = np.asarray(plan), np.asarray(monitor)
    check(plan.shape == monitor.shape, "the two plans differ in shape")
    check(plan.shape[1] == len(rows), "the plan is not for %d rows" % len(rows))
    check(np.all(plan >= 0), "negative multipliers", fmt(plan))
    close(plan.sum(axis=0), real, "total transfers of rows %s" % rows, 1e-9)
    check(np.array_equal(monitor != 0, plan > 0), "monitored %s" % monitor, fmt(plan))
    if r["as_int"]:
        check(np.array_equal(plan, np.round(plan)), "not integers", fmt(plan))

    # No more computed transfers than were asked for (with one more each for the
    # first transfer of each pixel, if it is separate)
    first = r["first"] and r["kind"] != "injection"
    total = int(real.max())
    k = total if express == 0 else min(express, total)
    count = (plan > 0).sum(axis=0)
    limit = k + (1 if first else 0)
    check(
        np.all(count <= limit),
        "%s computed transfers of each row for express=%d" % (count, express),
    )
    if k == total:
        # All of them, one by one
        check(np.all((plan == 0) | (np.abs(plan - 1) < 1e-9)), "multipliers", fmt(plan))
    else:
        # Shared out evenly
        allowed = -(-total // k) if r["as_int"] else total / k
        if not (r["kind"] == "pump" and r["as_int"]):
            check(
                plan.max() <= max(allowed, 1) + 1e-9,
                "one transfer stands for %g, not %g" % (plan.max(), allowed),
                fmt(plan),
            )
    separate = first and (k < rows[-1] + 1 if r["kind"] == "standard" else k < total)
    if separate and r["kind"] == "standard":
        # Each pixel meets empty traps exactly once: on a transfer of its own
        start = [int(np.argmax(plan[:, i] > 0)) for i in range(len(rows))]
        for i, e in enumerate(start):
            check(
                abs(plan[e, i] - 1) < 1e-9,
                "the first transfer of row %d stands for %g" % (rows[i], plan[e, i]),
                fmt(plan),
            )
            check(
                not np.any(plan[e, :i] > 0),
                "the first transfer of row %d does not meet empty traps" % rows[i],
                fmt(plan),
            )
    save = np.asarray(getattr(roe, SAVE)(plan))
    check(save.shape == plan.shape, "the matrix of saved states has another shape")
    tags = [r["kind"], "all" if k == total else "some", "integer" if r["as_int"] else "float"]
    return k < total or len(rows) > 1, tags


@st.composite
def equal(draw):
    """Computing all transfers: however that is asked for."""
    case = draw(
        gen.supported(max_rows=7, max_cols=2, serial=False, express=st.just(0), time_window=False)
    )
    case["extra"] = draw(st.sampled_from([0, 0, 1, 7]))
    case["swap"] = draw(st.booleans())
    if case["swap"]:
        case.pop("time_window", None)
        if case["parallel"]["roe"]["kind"] == "injection":
            case["parallel"]["roe"]["n_transfers"] = None
    return case


def run_equal(ac, case):
    image = arr(case["image"])
    p = case["parallel"]
    if p["roe"]["kind"] == "injection" and p["roe"]["n_transfers"]:
        n = p["roe"]["n_transfers"]
    else:
        last = image.shape[0]
        if p.get("window") and p["roe"]["kind"] == "standard":
            last = p["window"][1]
        n = last + p["offset"]
    name = "serial" if case["swap"] else "parallel"
    kw = b.direction(ac, p, name)
    if case.get("time_window") is not None:
        kw["time_window_range"] = range(*case["time_window"])
    given = image.T if case["swap"] else image
    zero = np.asarray(ac.add_cti(image=given.copy(), **kw))
    kw[name + "_express"] = n + case["extra"]
    full = np.asarray(ac.add_cti(image=given.copy(), **kw))
    close(
        full,
        zero,
        "express=%d for %d transfers, against express=0" % (n + case["extra"], n),
        1e-10,
        max(image.max(), 1e-300),
    )
    # Whether multipliers are integers, or first transfers are separate, then
    # does not matter
    q = copy.deepcopy(p)
    q["roe"]["as_int"] = not q["roe"]["as_int"]
    kw2 = b.direction(ac, q, name)
    kw2[name + "_express"] = n + case["extra"]
    if case.get("time_window") is not None:
        kw2["time_window_range"] = range(*case["time_window"])
    close(
        ac.add_cti(image=given.copy(), **kw2),
        zero,
        "integer and float multipliers, with every transfer computed",
        1e-10,
        max(image.max(), 1e-300),
    )
    return moved(given, zero), [name, p["roe"]["kind"]]


@st.composite
def modelled(draw):
    """Any value of express, against the independent model."""
    case = draw(
        gen.cti_cases(
            max_rows=9,
            max_cols=2,
            serial=False,
            express=st.integers(1, 10),
            max_phases=2,
            max_groups=1,
            roe_kinds=("standard", "standard", "injection"),
            between=st.just(True),
        )
    )
    return gen.cover_injection(case)


def run_modelled(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    close(
        out,
        b.ref_add(case),
        "express=%d against the model" % case["parallel"]["express"],
        1e-7,
        max(image.max(), 1e-300),
    )
    r = case["parallel"]["roe"]
    return moved(image, out), [
        r["kind"],
        "first" if r["first"] else "not first",
        "integer" if r["as_int"] else "float",
    ]


@st.composite
def accurate(draw):
    """Weak CTI in a smooth image: express is far better than nothing (the worst
    error seen is a third of the effect of CTI, usually a few per cent)."""
    n = draw(st.integers(3, 14))
    base = draw(gen.log_float(2, 4))
    image = [
        [base * (1 + draw(st.floats(0, 1).map(lambda x: round(x, 3)))) for _ in range(2)]
        for _ in range(n)
    ]
    return {
        "image": image,
        "parallel": {
            "ccd": {"fractions": [1], "full_well": 1e5, "notch": 0.0,
                    "power": draw(st.sampled_from([0.5, 0.8, 1.0]))},
            "roe": {"kind": "standard", "dwell": [1.0], "first": True, "between": True,
                    "away": True, "as_int": draw(st.booleans())},
            "groups": [[draw(gen.instant_trap(
                density=gen.log_float(-3, -1), tau=gen.log_float(-0.5, 1)))]],
            "express": draw(st.integers(1, n - 1)),
            "offset": draw(st.sampled_from([0, 3, 30])),
        },
    }


def run_accurate(ac, case):
    image = arr(case["image"])
    out = b.add(ac, case)
    exact = copy.deepcopy(case)
    exact["parallel"]["express"] = 0
    exact = b.add(ac, exact)
    n = image.shape[0] + case["parallel"]["offset"]
    density = case["parallel"]["groups"][0][0]["density"]
    # Only where CTI is weak, so that one transfer does not change the next ones
    slope = case["parallel"]["ccd"]["power"] * density * (image.max() / 1e5) ** (
        case["parallel"]["ccd"]["power"]
    ) / image.min()
    if n * slope > 0.02:
        return False, ["too strong"]
    effect = float(np.max(np.abs(exact - image)))
    err = float(np.max(np.abs(out - exact)))
    check(
        err <= 0.75 * effect + 1e-12,
        "express=%d is wrong by %.3g of the effect of CTI" % (case["parallel"]["express"], err / effect),
        "exact\n" + fmt(exact),
        "express\n" + fmt(out),
    )
    return True, []


RULE = (
    "random clocking, sizes, windows, offsets and numbers of computed transfers; "
    "non-trivial if fewer transfers are computed than made (images: CTI changed it)"
)
SUBS = [
    Sub("plans", lambda t: plans(), run_plan, RULE, 4000, 80000),
    Sub("large", lambda t: large_plans(), run_plan, RULE, 160, 4000),
    Sub("equal", lambda t: equal(), run_equal, RULE, 800, 12000),
    Sub("model", lambda t: modelled(), run_modelled, RULE, 1600, 24000),
    Sub("accurate", lambda t: accurate(), run_accurate, RULE, 400, 6000),
]
