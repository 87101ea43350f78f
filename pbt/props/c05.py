"""Serial clocking is parallel clocking of the transposed image, and comes second."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, is_image, moved


@st.composite
def transposed(draw):
    case = draw(gen.supported(max_rows=7, max_cols=7, time_window=False, serial=False))
    if case.get("time_window") is not None:
        del case["time_window"]
        case["parallel"]["roe"]["n_transfers"] = None
    a = draw(gen.windows(gen.n_cols(case)))
    case["across"] = a
    return case


def run_transposed(ac, case):
    image = arr(case["image"])
    d = case["parallel"]
    across = case["across"]
    kw = b.direction(ac, d, "parallel")
    if across is not None:
        kw["serial_window_range"] = range(*across)
    parallel = np.asarray(ac.add_cti(image=image.copy(), **kw))
    kw = b.direction(ac, d, "serial")
    if across is not None:
        kw["parallel_window_range"] = range(*across)
    serial = np.asarray(ac.add_cti(image=image.T.copy(), **kw))
    is_image(serial, image.T.shape)
    close(
        serial.T,
        parallel,
        "serial clocking of the transposed image, against parallel clocking",
        1e-10,
        max(image.max(), 1e-300),
    )
    return moved(image, parallel), [d["roe"]["kind"]]


@st.composite
def both(draw):
    """Parallel and serial together, with windows."""
    case = draw(gen.supported(max_rows=6, max_cols=6))
    other = draw(gen.supported(max_rows=6, max_cols=6, serial=False, time_window=False))
    for name, n in (("parallel", gen.n_rows(case)), ("serial", gen.n_cols(case))):
        if name not in case:
            case[name] = other["parallel"]
            case[name].pop("window", None)
            w = draw(gen.windows(n))
            if w is not None:
                case[name]["window"] = w
            gen.cover_injection(case)
    return case


def run_both(ac, case):
    image = arr(case["image"])
    p, s = case["parallel"], case["serial"]
    out = is_image(b.add(ac, case), image.shape)
    n_rows, n_cols = image.shape

    rows = list(range(*p["window"])) if p.get("window") else list(range(n_rows))
    cols = list(range(*s["window"])) if s.get("window") else list(range(n_cols))

    # Parallel clocking of the selected columns, then serial clocking of the
    # selected rows that are read out in the time window
    kw = b.direction(ac, p, "parallel")
    kw["serial_window_range"] = range(cols[0], cols[-1] + 1)
    if case.get("time_window") is not None:
        kw["time_window_range"] = range(*case["time_window"])
    step = np.asarray(ac.add_cti(image=image.copy(), **kw))
    if case.get("time_window") is not None:
        t = case["time_window"]
        rows = [r for r in rows if t[0] <= r + p["offset"] < t[1]]
    kw = b.direction(ac, s, "serial")
    if rows:
        kw["parallel_window_range"] = range(rows[0], rows[-1] + 1)
        expect = np.asarray(ac.add_cti(image=step.copy(), **kw))
    else:
        expect = step
    close(
        out,
        expect,
        "parallel and serial together, against one after the other",
        1e-10,
        max(image.max(), 1e-300),
    )
    tags = ["time window"] if case.get("time_window") is not None else []
    return moved(image, step) and moved(step, expect), tags


@st.composite
def remove_transposed(draw):
    case = draw(transposed())
    case["iterations"] = draw(st.sampled_from([2, 1, 3]))
    return case


def run_remove_transposed(ac, case):
    image = arr(case["image"])
    d = case["parallel"]
    i = case["iterations"]
    p = ac.remove_cti(
        image=image.copy(), iterations=i, **b.direction(ac, d, "parallel")
    )
    s = ac.remove_cti(
        image=image.T.copy(), iterations=i, **b.direction(ac, d, "serial")
    )
    close(
        np.asarray(s).T,
        np.asarray(p),
        "correction of the transposed image",
        1e-9,
        max(image.max(), 1e-300),
    )
    return moved(image, p), []


RULE = (
    "random images and settings for both directions; non-trivial if each direction "
    "involved changed the image"
)
SUBS = [
    Sub("transposed", lambda t: transposed(), run_transposed, RULE, 1200, 20000),
    Sub("both", lambda t: both(), run_both, RULE, 1200, 20000),
    Sub("removal", lambda t: remove_transposed(), run_remove_transposed, RULE, 240, 4000),
]
