"""Trap species act as populations: only how many there are of each kind matters."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, fmt, is_image, moved


def directions_of(case):
    return [case[n] for n in ("parallel", "serial") if n in case]


@st.composite
def rearranged(draw, continuum=False):
    """The same species described differently."""
    small = dict(max_rows=3, max_cols=1, serial=False, max_phases=2) if continuum else {}
    case = draw(gen.supported(**dict(dict(max_rows=7, max_cols=3, max_species=3, continuum=continuum), **small)))
    new = copy.deepcopy(case)
    tags = set()
    for d in directions_of(new):
        groups = d["groups"]
        for i, g in enumerate(groups):
            todo = draw(st.sampled_from(["order", "split", "zero", "none"]))
            tags.add(todo)
            if todo == "order":
                groups[i] = list(draw(st.permutations(g)))
            elif todo == "split":
                j = draw(st.integers(0, len(g) - 1))
                x = draw(st.sampled_from([0.5, 0.25, 0.9, 0.0]))
                one, two = copy.deepcopy(g[j]), copy.deepcopy(g[j])
                one["density"] *= x
                two["density"] *= 1 - x
                groups[i] = g[:j] + [one] + g[j + 1 :] + [two]
            elif todo == "zero":
                extra = copy.deepcopy(g[0])
                extra["density"] = 0.0
                extra["tau"] *= draw(st.sampled_from([1.0, 0.2, 7.0]))
                k = draw(st.integers(0, len(g)))
                groups[i] = g[:k] + [extra] + g[k:]
        if draw(st.integers(0, 2)) == 0:
            kind = draw(st.sampled_from(["instant", "slow"]))
            extra = draw(gen.instant_trap() if kind == "instant" else gen.slow_trap())
            extra["density"] = 0.0
            groups.append([extra])
            tags.add("zero group")
        if draw(st.booleans()):
            d["groups"] = list(draw(st.permutations(groups)))
            tags.add("group order")
    case["new"] = new
    case["done"] = sorted(tags - {"none"})
    return case


def run_rearranged(tolerance):
    def run(ac, case):
        image = arr(case["image"])
        out = is_image(b.add(ac, case), image.shape)
        new = b.add(ac, case["new"])
        close(
            new,
            out,
            "the same traps, after %s" % ", ".join(case["done"]),
            tolerance,
            max(image.max(), 1e-300),
        )
        return bool(case["done"]) and moved(image, out), case["done"]

    return run


@st.composite
def nothing(draw):
    """No traps, of one sort or another, do nothing."""
    case = draw(gen.supported(max_rows=6, max_cols=4, away=st.booleans()))
    case["why"] = draw(st.sampled_from(["density", "notch", "empty", "none", "traps elsewhere"]))
    for d in directions_of(case):
        if case["why"] == "density":
            for g in d["groups"]:
                for t in g:
                    t["density"] = 0.0
        elif case["why"] == "notch":
            top = max(max(row) for row in case["image"])
            d["ccd"]["notch"] = top
            d["ccd"]["full_well"] = 2 * top + 1.0
        elif case["why"] == "empty":
            case["image"] = [[0.0] * gen.n_cols(case)] * gen.n_rows(case)
        elif case["why"] == "traps elsewhere":
            d["ccd"]["fractions"] = [0.0] * len(d["ccd"]["fractions"])
    return case


def run_nothing(ac, case):
    image = arr(case["image"])
    if case["why"] == "none":
        kw = b.kwargs(ac, case)
        for name in ("parallel_traps", "serial_traps"):
            kw.pop(name, None)
        out = np.asarray(ac.add_cti(image=image.copy(), **kw))
    else:
        out = b.add(ac, case)
    is_image(out, image.shape)
    check(
        np.array_equal(out, image),
        "the image changed without any traps in reach (%s)" % case["why"],
        "in\n" + fmt(image),
        "out\n" + fmt(out),
    )
    return image.max() > 0 or case["why"] == "empty", [case["why"]]


@st.composite
def nested(draw):
    case = draw(gen.supported(max_rows=6, max_cols=3, max_groups=1, max_species=2))
    for d in directions_of(case):
        d["style"]["traps"] = "nested"
    return case


def run_nested(ac, case):
    image = arr(case["image"])
    full = b.add(ac, case)
    scale = max(image.max(), 1e-300)
    kw = b.kwargs(ac, case)
    for name in ("parallel", "serial"):
        if name in case:
            kw[name + "_traps"] = kw[name + "_traps"][0]
    close(ac.add_cti(image=image.copy(), **kw), full, "[trap, ...]", 1e-12, scale)
    single = [n for n in ("parallel", "serial") if n in case and len(case[n]["groups"][0]) == 1]
    for name in single:
        kw[name + "_traps"] = kw[name + "_traps"][0]
    close(ac.add_cti(image=image.copy(), **kw), full, "a single trap", 1e-12, scale)
    return moved(image, full), ["single" if single else "list"]


# ----------------------------------------------------------------------------
# A few traps are independent of each other


@st.composite
def weak(draw):
    n = draw(st.integers(2, 8))
    sky = draw(gen.log_float(2, 3.5))
    image = [
        [sky + draw(st.one_of(st.just(0.0), gen.log_float(1, 3.5))) for _ in range(2)]
        for _ in range(n)
    ]
    kind = draw(st.sampled_from(["instant", "slow"]))
    maker = gen.instant_trap if kind == "instant" else gen.slow_trap
    one = draw(maker(density=gen.log_float(-1, 0)))
    two = draw(maker(density=gen.log_float(-1, 0)))
    n_phases = draw(gen.phases(3))
    ccd = draw(gen.ccds(n_phases, notch=False))
    ccd["power"] = draw(st.sampled_from([0.5, 0.7, 1.0]))
    ccd["full_well"] = draw(gen.log_float(4.5, 5))
    roe = draw(
        gen.roes(
            n_phases,
            first=st.just(True),
            between=st.just(True),
            kinds=("standard", "injection"),
            as_int=st.just(False),
        )
    )
    if roe["kind"] == "injection":
        roe["n_transfers"] = None
    return {
        "image": image,
        "traps": [one, two],
        "parallel": {
            "ccd": ccd,
            "roe": roe,
            "express": draw(st.sampled_from([0, 0, 1])),
            "offset": draw(st.sampled_from([0, 0, 3])),
        },
        "times": draw(st.sampled_from([1.0, 2.0, 5.0])),
        "together": draw(st.booleans()),
    }


def run_weak(ac, case):
    image = arr(case["image"])
    one, two = case["traps"]
    size = 1e-4

    def effect(groups):
        new = copy.deepcopy(case)
        new["parallel"]["groups"] = copy.deepcopy(groups)
        for g in new["parallel"]["groups"]:
            for t in g:
                t["density"] *= size
        return (b.add(ac, new) - image) / size

    a, c = effect([[one]]), effect([[two]])
    sum_ = effect([[one, two]] if case["together"] else [[one], [two]])
    # (the first order can cancel, e.g. if all is released again in each transfer)
    big = max(np.abs(a).max(), np.abs(c).max(), 0.01 * (one["density"] + two["density"]))
    # Nonlinear in the density only at second order
    held = max(1.0, sum(case["parallel"]["ccd"]["fractions"]))
    tol = 2e-3 * held
    # Released in a phase that holds no other charge, the electrons are captured
    # again within the volume that they fill by themselves
    p = case["parallel"]
    n = len(p["ccd"]["fractions"])
    fill = 0.0
    if n > 1:
        total = case["times"] * (one["density"] + two["density"]) * held
        wells, powers = (
            x if isinstance(x, list) else [x] * n
            for x in (p["ccd"]["full_well"], p["ccd"]["power"])
        )
        fill = max((total * size / w) ** q for w, q in zip(wells, powers))
        fill *= total * n * (len(image) + p["offset"])
    close(sum_, a + c, "the effect of two species, against the sum of each", tol, big, fill)
    more = copy.deepcopy(one)
    more["density"] *= case["times"]
    close(
        effect([[more]]) / case["times"],
        a,
        "the effect per trap of %g times more traps" % case["times"],
        tol * case["times"],
        big,
        fill,
    )
    return np.abs(a).max() > 1e-3 * one["density"], ["together" if case["together"] else "apart"]


RULE = (
    "random images, settings and trap species, described in two ways; non-trivial if "
    "the description differs and CTI changed the image"
)
SUBS = [
    Sub("rearranged", lambda t: rearranged(), run_rearranged(1e-7), RULE, 1600, 24000),
    Sub("nothing", lambda t: nothing(), run_nothing, RULE, 800, 8000),
    Sub("nested", lambda t: nested(), run_nested, RULE, 400, 6000),
    Sub("weak", lambda t: weak(), run_weak, RULE, 400, 6000),
    Sub("continuum", lambda t: rearranged(True), run_rearranged(1e-4), RULE, 32, 400),
]
