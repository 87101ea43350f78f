"""No access outside the memory of the image and of the trap states."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, is_image, moved
from pbt.props import c18

# Built with AddressSanitizer: a bad access ends the process, and the case that
# did it is reported
FLAVOUR = "asan"


def run_add(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    return moved(image, out), sorted(
        {case[n]["roe"]["kind"] for n in ("parallel", "serial") if n in case}
    )


def run_pump(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    w = case["parallel"]["window"]
    edge = w == 0 or w == image.shape[0] - 1
    return moved(image, out), ["edge" if edge else "inside"]


def run_history(ac, case):
    kind, specs = case["manager"], case["group"]
    m = getattr(ac.trap_managers, c18.MANAGER[kind])(
        traps=[b.trap(ac, s) for s in specs],
        max_n_transfers=min(case["room"], len(case["steps"])),
    )
    fill = b.ccd(ac, case["ccd"]).well_filling_function(0)
    trapped = 0.0
    for n, dwell in case["steps"]:
        net = m.n_electrons_released_and_captured(n, fill, dwell_time=dwell)
        check(np.isfinite(net), "%r electrons released" % net)
        trapped = max(trapped, m.n_trapped_electrons_from_watermarks(m.watermarks))
    return trapped > 0 and len(case["steps"]) > 10, [kind]


@st.composite
def long_images(draw):
    """Many pixels, each brighter or fainter than those before."""
    case = draw(
        gen.supported(
            max_rows=2, max_cols=1, serial=False, max_phases=3, window=False, away=st.booleans()
        )
    )
    n = draw(st.integers(5, 40))
    values = draw(
        st.lists(st.floats(0.1, 4.5), min_size=n, max_size=n).map(
            lambda v: [float("%.6g" % 10.0 ** x) for x in v]
        )
    )
    order = draw(st.sampled_from(["any", "up", "down"]))
    if order != "any":
        values = sorted(values, reverse=order == "down")
    case["image"] = [[v] for v in values]
    case["parallel"]["express"] = draw(st.integers(1, 3))
    case["parallel"]["roe"]["n_transfers"] = None
    case.pop("time_window", None)
    return case


RULE = "random calls with AddressSanitizer watching; non-trivial if charge moved"
SUBS = [
    Sub("images", lambda t: gen.supported(max_rows=7, max_cols=3), run_add, RULE, 1200, 24000),
    Sub("long", lambda t: long_images(), run_add, RULE, 300, 6000),
    Sub("pumping", lambda t: gen.pumping(), run_pump, RULE, 600, 12000),
    Sub(
        "history",
        lambda t: c18.histories(("slow", "instant", "times"), 40),
        run_history,
        "random histories of over 10 steps",
        800,
        16000,
    ),
]
