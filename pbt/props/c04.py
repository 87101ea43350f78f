"""Columns are independent, unless they are said to share their traps."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, is_image, moved


@st.composite
def independent(draw):
    """One clocking direction with traps emptied between lines."""
    case = draw(
        gen.supported(
            max_rows=8,
            max_cols=5,
            between=st.just(True),
            time_window=False,
        )
    )
    # One direction only
    if "parallel" in case and "serial" in case:
        del case[draw(st.sampled_from(["parallel", "serial"]))]
        case.pop("time_window", None)
        gen.cover_injection(case)
    n = gen.n_cols(case) if "parallel" in case else gen.n_rows(case)
    case["order"] = draw(
        st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1)
        if draw(st.booleans())
        else st.permutations(range(n))
    )
    return case


def run_independent(ac, case):
    image = arr(case["image"])
    axis = 1 if "parallel" in case else 0
    d = case["parallel" if axis else "serial"]
    # The window across the lines is not touched by these generators
    out = is_image(b.add(ac, case), image.shape)
    order = list(case["order"])
    new = b.add(ac, case, np.take(image, order, axis=axis))
    close(
        new,
        np.take(out, order, axis=axis),
        "lines %s of the image processed together, against the whole image" % order,
        1e-10,
        max(image.max(), 1e-300),
    )
    return moved(image, out), ["parallel" if axis else "serial", d["roe"]["kind"]]


@st.composite
def selected(draw):
    """A window of columns (or rows, for serial clocking)."""
    case = draw(independent())
    axis = 1 if "parallel" in case else 0
    n = gen.n_cols(case) if axis else gen.n_rows(case)
    a = draw(st.integers(0, n - 1))
    case["across"] = [a, draw(st.integers(a + 1, n))]
    case["as_integer"] = draw(st.booleans()) and case["across"][1] == a + 1
    return case


def run_selected(ac, case):
    image = arr(case["image"])
    axis = 1 if "parallel" in case else 0
    out = b.add(ac, case)
    kw = b.kwargs(ac, case)
    a, z = case["across"]
    name = "serial_window_range" if axis else "parallel_window_range"
    kw[name] = a if case["as_integer"] else range(a, z)
    new = np.asarray(ac.add_cti(image=image.copy(), **kw))
    expect = image.copy()
    where = (slice(None), slice(a, z)) if axis else (slice(a, z), slice(None))
    expect[where] = out[where]
    close(new, expect, "only lines %d to %d" % (a, z), 1e-10, max(image.max(), 1e-300))
    return moved(image, out), ["window across"]


@st.composite
def shared(draw):
    """Traps that keep their electrons from one column to the next."""
    case = draw(
        gen.cti_cases(
            max_rows=6,
            max_cols=4,
            window=False,
            max_phases=3,
            between=st.just(False),
        )
    )
    if "parallel" in case and "serial" in case:
        del case[draw(st.sampled_from(["parallel", "serial"]))]
    return case


def run_shared(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    scale = max(image.max(), 1e-300)
    # Only what came before matters
    axis = 1 if "parallel" in case else 0
    n = image.shape[axis]
    for k in range(1, n):
        part = b.add(ac, case, np.take(image, range(k), axis=axis))
        close(
            part,
            np.take(out, range(k), axis=axis),
            "the first %d lines, without the later ones" % k,
            1e-10,
            scale,
        )
    # And all of it does, as in the reference model
    close(out, b.ref_add(case), "lines that share traps, against the model", 1e-7, scale)
    d = case["parallel" if axis else "serial"]
    d["roe"]["between"] = True
    alone = b.add(ac, case)
    d["roe"]["between"] = False
    return moved(alone, out), ["carried over" if moved(alone, out) else "nothing carried"]


@st.composite
def wide(draw):
    """Many columns."""
    case = draw(shared())
    name = "parallel" if "parallel" in case else "serial"
    few = draw(gen.images(2, 9))
    if draw(st.booleans()):
        case[name]["roe"]["between"] = True
    case["few"] = few
    case["lines"] = draw(st.integers(30, 300))
    case["order"] = draw(st.integers(1, 1000))
    return case


def run_wide(ac, case):
    few = arr(case["few"])
    order = np.random.RandomState(case["order"]).randint(0, few.shape[1], case["lines"])
    image = few[:, order]
    if "serial" in case:
        image = image.T.copy()
    out = is_image(b.add(ac, case, image), image.shape)
    scale = max(image.max(), 1e-300)
    d = case["parallel" if "parallel" in case else "serial"]
    if d["roe"]["between"]:
        some = b.add(ac, case, few if "parallel" in case else few.T.copy())
        some = some if "parallel" in case else some.T
        want = some[:, order] if "parallel" in case else some[:, order].T
        close(out, want, "%d lines, against one of each kind" % len(order), 1e-10, scale)
    else:
        want = b.ref_add(case, image)
        close(out, want, "%d lines that share traps, against the model" % len(order), 1e-7, scale)
    return moved(image, out), ["shared" if not d["roe"]["between"] else "independent"]


RULE = (
    "random images and settings; non-trivial if CTI changed the image (shared: if "
    "carrying trapped charge on to the next column made a difference)"
)
SUBS = [
    Sub("independent", lambda t: independent(), run_independent, RULE, 1600, 24000),
    Sub("selected", lambda t: selected(), run_selected, RULE, 800, 12000),
    Sub("shared", lambda t: shared(), run_shared, RULE, 800, 12000),
    Sub("wide", lambda t: wide(), run_wide, RULE, 64, 1200),
]
