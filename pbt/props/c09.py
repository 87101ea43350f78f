"""An offset is the same as blank pixels between the image and the readout."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, close, is_image, moved


@st.composite
def cases(draw):
    case = draw(
        gen.cti_cases(
            max_rows=7,
            max_cols=4,
            window=False,
            first=st.just(True),
            between=st.just(True),
            max_phases=4,
            away=st.booleans(),
            roe_kinds=("standard", "standard", "injection"),
            offset=st.integers(0, 6),
        )
    )
    for name, n in (("parallel", gen.n_rows(case)), ("serial", gen.n_cols(case))):
        if name not in case:
            continue
        d = case[name]
        if d["roe"]["kind"] == "injection":
            # (an explicit number of transfers already includes the offset)
            d["roe"]["n_transfers"] = None
        if d["express"] >= n:
            d["express"] = draw(st.one_of(st.just(0), st.integers(0, n - 1)))
        d["split"] = draw(st.integers(0, d["offset"]))
    if "parallel" in case and "serial" not in case and draw(st.booleans()):
        n = gen.n_rows(case)
        w = draw(gen.windows(n))
        if w is not None:
            case["parallel"]["window"] = w
            if case["parallel"]["express"] >= w[1]:
                case["parallel"]["express"] = 0
    if (
        "parallel" in case
        and case["parallel"]["roe"]["kind"] == "standard"
        and draw(st.integers(0, 2)) == 0
    ):
        n = gen.n_rows(case) + case["parallel"]["offset"]
        a = draw(st.integers(0, n - 1))
        case["time_window"] = [a, draw(st.integers(a + 1, n))]
        case.pop("serial", None)
    return case


def run(ac, case):
    """Some of the offset (from none to all of it) as blank pixels instead."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    new = copy.deepcopy(case)
    padded = image
    cut = [0, 0]
    for axis, name in ((0, "parallel"), (1, "serial")):
        if name not in case:
            continue
        d = new[name]
        k = d["offset"] - d["split"]
        d["offset"] = d["split"]
        cut[axis] = k
        shape = list(padded.shape)
        shape[axis] = k
        padded = np.concatenate((np.zeros(shape), padded), axis=axis)
        if d.get("window") is not None:
            d["window"] = [d["window"][0] + k, d["window"][1] + k]
    blank = np.asarray(b.add(ac, new, padded))
    close(
        blank[cut[0] :, cut[1] :],
        out,
        "%s blank pixels instead of that much of the offset" % cut,
        1e-10,
        max(image.max(), 1e-300),
    )
    tags = [n for n in ("parallel", "serial") if n in case]
    if case.get("time_window") is not None:
        tags.append("time window")
    tags.append("express" if any(case[n]["express"] for n in ("parallel", "serial") if n in case) else "all")
    return max(cut) > 0 and moved(image, out), tags


@st.composite
def plans(draw):
    """More offset, more transfers, one each."""
    roe = draw(gen.roes(1, kinds=("standard", "injection"), zeros=False))
    if roe["kind"] == "injection":
        roe["n_transfers"] = draw(st.one_of(st.none(), st.integers(1, 12)))
    return {
        "roe": roe,
        "pixels": draw(st.integers(1, 10)),
        "express": draw(st.integers(0, 12)),
        "offset": draw(st.integers(0, 12)),
    }


def run_plan(ac, case):
    roe = b.roe(ac, case["roe"])
    name = "express_matrix_and_monitor_traps_matrix_from_pixels_and_express"
    plan, _ = getattr(roe, name)(
        pixels=case["pixels"], express=case["express"], offset=case["offset"]
    )
    n = np.asarray(plan).sum(axis=0)
    rows = np.arange(case["pixels"])
    if case["roe"]["kind"] == "standard":
        expect = rows + 1 + case["offset"]
    else:
        m = case["roe"]["n_transfers"]
        expect = 0 * rows + (case["pixels"] + case["offset"] if m is None else m)
    close(n, expect, "the number of transfers of each row", 1e-9)
    return case["offset"] > 0, [case["roe"]["kind"]]


RULE = (
    "random images, settings and offsets for both directions; non-trivial if some of "
    "the offset was replaced by blank pixels and CTI changed the image"
)
SUBS = [
    Sub("blank", lambda t: cases(), run, RULE, 2400, 40000),
    Sub("transfers", lambda t: plans(), run_plan, RULE, 800, 8000),
]
