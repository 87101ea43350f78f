"""Frames (images with their metadata) go in and come out as frames."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, moved


@st.composite
def framed(draw):
    case = draw(gen.supported(max_rows=6, max_cols=4))
    rows, cols = gen.n_rows(case), gen.n_cols(case)
    case["mask"] = draw(
        st.one_of(
            st.none(),
            st.lists(
                st.lists(st.sampled_from([False, False, True]), min_size=cols, max_size=cols),
                min_size=rows,
                max_size=rows,
            ),
        )
    )
    case["corner"] = draw(st.sampled_from([[1, 0], [0, 0], [1, 1], [0, 1]]))
    case["kind"] = draw(st.sampled_from(["Frame", "Frame", "FrameACS"]))
    case["scans"] = draw(st.booleans())
    case["iterations"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    # Rows and columns around the image in a larger frame that it is a patch of
    if draw(st.integers(0, 2)) == 2:
        case["around"] = [draw(st.integers(0, 2)) for _ in range(4)]
    return case


def make(ac, case, info):
    """A frame whose values, after the rotation, are those of the image."""
    from autoarray.mask import mask as msk
    from autoarray.structures import frames
    from autoarray.structures.frames import abstract_frame
    from autoarray.util import frame_util

    cls = frames.Frame if case["kind"] == "Frame" else ac.acs.FrameACS
    corner = tuple(case["corner"])
    turn = lambda a: frame_util.rotate_array_from_roe_corner(array=a, roe_corner=corner)
    image = arr(case["image"])
    around = case.get("around")
    if around is not None:
        image = np.pad(image, (around[:2], around[2:]), constant_values=321.0)
    scans = None
    if case["scans"]:
        rows, cols = image.shape
        scans = abstract_frame.Scans(
            parallel_overscan=(0, rows, 0, 1), serial_prescan=(0, 1, 0, cols)
        )
    if case["mask"] is None:
        frame = cls.manual(
            array=turn(image).copy(), roe_corner=corner, scans=scans, exposure_info=info
        )
    else:
        mask = np.array(case["mask"])
        if around is not None:
            mask = np.pad(mask, (around[:2], around[2:]), constant_values=False)
        mask = msk.Mask.manual(mask=turn(mask).copy(), pixel_scales=(1.0, 1.0))
        frame = cls.manual_mask(
            array=turn(image).copy(), mask=mask, roe_corner=corner, scans=scans, exposure_info=info
        )
    if around is not None:
        # As in the example of correcting a patch of an image
        a, z, l, r = around
        rows, cols = frame.shape
        mask = frame.mask[a : rows - z, l : cols - r]
        frame = frame[a : rows - z, l : cols - r]
        frame.mask = mask
    return frame


class Info:
    """Stands for the information about an exposure."""

    exposure_time = 12.5


def run(ac, case):
    info = Info()
    frame = make(ac, case, info)
    image = arr(case["image"])
    mask = np.zeros(image.shape, bool) if case["mask"] is None else np.array(case["mask"])
    start = np.where(mask, 0.0, image)
    check(np.array_equal(np.asarray(frame), start), "harness: frame is not the image")
    kept = {k: getattr(frame, k) for k in ("original_roe_corner", "scans", "exposure_info")}
    mask_before = np.array(frame.mask)

    kw = b.kwargs(ac, case)
    n = case["iterations"]
    if n == 0:
        out = ac.add_cti(image=frame, **kw)
        want = np.where(mask, 0.0, b.add(ac, case, start))
    else:
        out = ac.remove_cti(image=frame, iterations=n, **kw)
        want = start.copy()
        for _ in range(n):
            added = b.add(ac, case, want)
            want = want + start - np.where(mask, 0.0, added)

    check(type(out) is type(frame), "a %s came back as a %s" % (type(frame), type(out)))
    check(np.array_equal(np.asarray(frame), start), "the input frame was changed")
    check(np.array_equal(np.array(frame.mask), mask_before), "the mask of the input was changed")
    for k, v in kept.items():
        check(
            getattr(out, k) is v or getattr(out, k) == v,
            "%s of the frame is %r instead of %r" % (k, getattr(out, k), v),
        )
    check(np.array_equal(np.array(out.mask), mask_before), "output has a different mask")
    close(
        np.asarray(out),
        want,
        "%s of a frame, against that of a plain array"
        % ("addition" if n == 0 else "removal in %d iterations" % n),
        1e-9,
        max(image.max(), 1e-300) * 2 ** n,
    )
    check(np.all(np.asarray(out)[mask] == 0), "masked pixels have values")
    # And the output goes on being a frame that can be used
    again = ac.add_cti(image=out, **kw) if n == 0 else out
    check(type(again) is type(frame), "the output is not usable as a frame")
    check(
        out.original_orientation.shape == frame.original_orientation.shape,
        "original orientation",
    )
    return moved(start, want), [
        case["kind"],
        "masked" if mask.any() else "unmasked",
        "patch" if case.get("around") else "whole",
        "remove" if n else "add",
        "corner %s" % (tuple(case["corner"]),),
    ]


@st.composite
def nothing(draw):
    case = draw(framed())
    case.pop("parallel", None)
    case.pop("serial", None)
    case.pop("time_window", None)
    return case


RULE = "random frames, masks and settings; non-trivial if charge moved"
SUBS = [
    Sub("frames", lambda t: framed(), run, RULE, 1200, 20000),
    Sub("no traps", lambda t: nothing(), lambda ac, c: (run(ac, c)[0] or True, []), "no traps; always non-trivial", 100, 1000),
]
