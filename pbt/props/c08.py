"""A readout can be divided in time."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen, ref
from pbt.core import Sub, arr, check, close, fmt, is_image, moved

PLAN = "express_matrix_and_monitor_traps_matrix_from_pixels_and_express"


def cuts(draw, n):
    """0 = t0 < t1 < ... = n"""
    least = draw(st.sampled_from([0, 1, 1, 1]))
    inner = draw(st.sets(st.integers(1, n - 1), min_size=least, max_size=3)) if n > 1 else set()
    return [0] + sorted(inner) + [n]


@st.composite
def plans(draw):
    roe = draw(gen.roes(1, kinds=("standard", "injection"), zeros=False))
    n = draw(st.integers(1, 14))
    offset = draw(st.sampled_from([0, 0, 1, 5]))
    total = n + offset
    if roe["kind"] == "injection":
        offset = 0
        total = roe["n_transfers"] or n
    return {
        "roe": roe,
        "pixels": n,
        "express": draw(st.integers(0, n + 2)),
        "offset": offset,
        "cuts": cuts(draw, total),
    }


def run_plan(ac, case):
    roe = b.roe(ac, case["roe"])
    args = dict(pixels=case["pixels"], express=case["express"], offset=case["offset"])
    full, monitor = getattr(roe, PLAN)(**args)
    full, monitor = np.asarray(full), np.asarray(monitor)
    total = np.zeros_like(full)
    c = case["cuts"]
    for a, z in zip(c[:-1], c[1:]):
        part, m = getattr(roe, PLAN)(time_window_range=range(a, z), **args)
        part = np.asarray(part)
        check(part.shape == full.shape, "the plan for a window has another shape")
        check(np.all(part >= -1e-12), "negative number of transfers", fmt(part))
        check(
            np.array_equal(np.asarray(m), monitor),
            "the traps are not followed throughout the readout for window %d to %d" % (a, z),
            fmt(np.asarray(m)),
            fmt(monitor),
        )
        check(
            np.all(part <= full + 1e-12),
            "more transfers in a window than in the whole readout",
            fmt(part),
            fmt(full),
        )
        # Each pixel makes its transfers number a to z, as far as it goes
        before = np.minimum(a, full.sum(axis=0))
        after = np.minimum(z, full.sum(axis=0))
        close(part.sum(axis=0), after - before, "transfers in window %d to %d" % (a, z), 1e-9)
        close(
            part,
            np.array(ref.time_window(full.tolist(), a, z)),
            "plan for window %d to %d" % (a, z),
            1e-9,
        )
        total += part
    close(total, full, "the sum over windows %s" % c, 1e-9)
    return len(c) > 2, [case["roe"]["kind"], "express" if case["express"] else "all"]


@st.composite
def successive(draw):
    """Every transfer computed, all at once or in several calls."""
    case = draw(
        gen.cti_cases(
            max_rows=7,
            max_cols=4,
            window=False,
            express=st.just(0),
            first=st.just(True),
            between=st.just(True),
            max_phases=3,
        )
    )
    if "parallel" not in case:
        case["parallel"] = case.pop("serial")
    n = gen.n_rows(case) + case["parallel"]["offset"]
    case["cuts"] = cuts(draw, n)
    w = draw(gen.windows(gen.n_rows(case)))
    if w is not None and "serial" not in case:
        case["parallel"]["window"] = w
    return case


def run_successive(ac, case):
    image = arr(case["image"])
    whole = b.add(ac, case)
    kw = b.kwargs(ac, case)
    step = image.copy()
    c = case["cuts"]
    n_steps = 0
    for a, z in zip(c[:-1], c[1:]):
        new = np.asarray(ac.add_cti(image=step.copy(), time_window_range=range(a, z), **kw))
        n_steps += moved(step, new)
        step = new
    close(
        step,
        whole,
        "successive calls for transfers %s, against a single call" % c,
        1e-9,
        max(image.max(), 1e-300),
    )
    tags = ["serial too"] if "serial" in case else []
    return n_steps > 1, tags


@st.composite
def whole(draw):
    case = draw(gen.supported(max_rows=7, max_cols=3, time_window=False))
    if case.get("time_window") is not None:
        del case["time_window"]
        case["parallel"]["roe"]["n_transfers"] = None
    return case


def run_whole(ac, case):
    image = arr(case["image"])
    out = b.add(ac, case)
    n = image.shape[0] + case.get("parallel", {}).get("offset", 0)
    kw = b.kwargs(ac, case)
    same = np.asarray(ac.add_cti(image=image.copy(), time_window_range=range(n), **kw))
    close(same, out, "a window that is the whole readout", 1e-12, max(image.max(), 1e-300))
    return moved(image, out), []


@st.composite
def ranges(draw):
    """Transfers that a row has completed or not yet begun leave it alone."""
    case = draw(
        gen.cti_cases(
            max_rows=9,
            max_cols=3,
            serial=False,
            window=False,
            max_phases=3,
            express=st.integers(0, 4),
        )
    )
    n = gen.n_rows(case) + case["parallel"]["offset"]
    a = draw(st.integers(0, n - 1))
    case["time_window"] = [a, draw(st.integers(a + 1, n))]
    return case


def run_ranges(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    a, z = case["time_window"]
    p = case["parallel"]
    # Row r makes transfers 0 to r + offset
    done = [r for r in range(len(image)) if r + 1 + p["offset"] <= a]
    check(
        np.array_equal(out[done], image[done]),
        "rows that were read out before transfer %d changed" % a,
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    return moved(image, out) and (a > 0 or z < len(image) + p["offset"]), [
        "some rows read out" if done else "no rows read out"
    ]


@st.composite
def modelled(draw):
    """Windows in time, for any settings of one direction, against the model."""
    case = draw(ranges())
    case["parallel"]["roe"]["first"] = draw(st.booleans())
    return case


def run_modelled(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    close(out, b.ref_add(case), "window %s, against the model" % case["time_window"], 1e-7,
          max(image.max(), 1e-300))
    return moved(image, out), []


RULE = (
    "random readouts divided at random; non-trivial if there is more than one part "
    "(images: more than one part changed the image)"
)
SUBS = [
    Sub("plans", lambda t: plans(), run_plan, RULE, 1600, 30000),
    Sub("successive", lambda t: successive(), run_successive, RULE, 1200, 16000),
    Sub("whole", lambda t: whole(), run_whole, RULE, 400, 6000),
    Sub("ranges", lambda t: ranges(), run_ranges, RULE, 800, 12000),
    Sub("model", lambda t: modelled(), run_modelled, RULE, 600, 10000),
]
