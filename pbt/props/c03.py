"""A pixel is only affected by those that are read out before it."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, close, fmt, is_image, moved


@st.composite
def cases(draw, continuum=False):
    """A case, and a change to some pixels at and after one place."""
    case = draw(
        gen.supported(
            max_rows=9 if not continuum else 5,
            max_cols=4 if not continuum else 1,
            continuum=continuum,
            away=st.just(True),
            max_phases=4 if not continuum else 2,
            serial=not continuum,
        )
    )
    if case.get("time_window") is not None:
        # Which trap states are kept between express passes can then depend on
        # later rows
        case["parallel" if "parallel" in case else "serial"]["roe"]["first"] = True
    rows, cols = gen.n_rows(case), gen.n_cols(case)
    r0 = draw(st.integers(0, rows - 1))
    c0 = draw(st.integers(0, cols - 1))
    new = draw(gen.images(rows - r0, cols - c0, min_rows=rows - r0, min_cols=cols - c0))
    case["change"] = {"row": r0, "col": c0, "values": new}
    return case


def run(ac, case):
    image = arr(case["image"])
    ch = case["change"]
    changed = image.copy()
    changed[ch["row"] :, ch["col"] :] = arr(ch["values"])
    out = is_image(b.add(ac, case), image.shape)
    new = is_image(b.add(ac, case, changed), image.shape)
    scale = max(image.max(), changed.max(), 1e-300)
    p, s = case.get("parallel"), case.get("serial")
    tags, tested = [], False
    # (unless trapped charge is carried over from one column to the next)
    if p is None or p["roe"]["between"]:
        tags.append("rows")
        tested = tested or ch["row"] > 0
        close(
            new[: ch["row"]],
            out[: ch["row"]],
            "rows nearer the readout than the changed pixels (row %d)" % ch["row"],
            1e-10,
            scale,
        )
    if s is None or s["roe"]["between"]:
        tags.append("columns")
        tested = tested or ch["col"] > 0
        close(
            new[:, : ch["col"]],
            out[:, : ch["col"]],
            "columns before the changed pixels (column %d)" % ch["col"],
            1e-10,
            scale,
        )
    return tested and moved(out, new) and moved(image, out), tags


RULE = (
    "two images that are the same before some row and column, for random settings; "
    "non-trivial if CTI changed the image and the two outputs differ"
)
SUBS = [
    Sub("causal", lambda t: cases(), run, RULE, 2400, 40000),
    Sub("continuum", lambda t: cases(True), run, RULE, 32, 600),
]
