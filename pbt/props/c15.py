"""How charge fills a pixel: the well-filling law of each phase."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen
from pbt.core import Sub, arr, check, close, is_image, moved

NAMES = {"full_well": "full_well_depth", "power": "well_fill_power", "notch": "well_notch_depth"}


@st.composite
def wells(draw):
    n = draw(st.integers(1, 5))
    ccd = draw(gen.ccds(n))
    # Notches of any depth below the full well
    if draw(st.booleans()):
        full = b_list(ccd["full_well"], n)
        ccd["notch"] = [draw(st.floats(0, 0.999)) * f for f in full]
        if len(set(full)) == 1 and draw(st.booleans()):
            ccd["notch"] = ccd["notch"][0]
    ccd["scalar_fraction"] = n == 1 and draw(st.booleans())
    if ccd["scalar_fraction"]:
        ccd["fractions"] = [draw(st.sampled_from([1, 0.5, 2.0]))]
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        what = draw(st.sampled_from(["full_well", "power", "notch"]))
        value = {
            "full_well": gen.log_float(3.5, 5.5),
            "power": st.floats(0.1, 2.0),
            "notch": st.floats(0, 2000.0),
        }[what]
        if draw(st.booleans()):
            ops.append([what, draw(value)])
        else:
            ops.append([what, [draw(value) for _ in range(n)]])
    return {
        "ccd": ccd,
        "set": ops,
        "where": [
            [
                draw(st.sampled_from(["any", "notch", "full", "between", "zero"])),
                draw(st.floats(-0.5, 1.5)),
                draw(gen.log_float(-3, 6)),
            ]
            for _ in range(draw(st.integers(1, 8)))
        ],
    }


def b_list(v, n):
    return list(v) if isinstance(v, list) else [v] * n


def expected(n, full, notch, power):
    if n <= notch:
        return 0.0
    if n >= full:
        return 1.0
    return ((n - notch) / (full - notch)) ** power


def run(ac, case):
    c = copy.deepcopy(case["ccd"])
    n_phases = len(c["fractions"])
    ccd = ac.CCD(
        fraction_of_traps_per_phase=c["fractions"][0] if c["scalar_fraction"] else list(c["fractions"]),
        full_well_depth=copy.deepcopy(c["full_well"]),
        well_notch_depth=copy.deepcopy(c["notch"]),
        well_fill_power=copy.deepcopy(c["power"]),
    )
    now = {k: b_list(c[k], n_phases) for k in NAMES}
    functions = [ccd.well_filling_function(p) for p in range(n_phases)]
    interior = 0

    def compare(stage):
        count = 0
        check(ccd.n_phases == n_phases, "%s phases instead of %d" % (ccd.n_phases, n_phases))
        check(
            list(ccd.fraction_of_traps_per_phase) == list(c["fractions"]),
            "fractions are %s" % (ccd.fraction_of_traps_per_phase,),
        )
        for k, name in NAMES.items():
            check(
                list(getattr(ccd, name)) == now[k],
                "%s: %s is %s instead of %s" % (stage, name, getattr(ccd, name), now[k]),
            )
        for p in range(n_phases):
            full, notch, power = now["full_well"][p], now["notch"][p], now["power"][p]
            if notch >= full:
                continue
            f = ccd.well_filling_function(p)
            phase = ac.CCDPhase(ccd, p)
            values = []
            for where, x, size in case["where"]:
                n = {
                    "any": size,
                    "notch": notch,
                    "full": full,
                    "between": notch + x * (full - notch),
                    "zero": 0.0,
                }[where]
                n = max(0.0, n)
                want = expected(n, full, notch, power)
                got = [
                    ccd.cloud_fractional_volume_from_n_electrons_and_phase(n, p),
                    f(n),
                    phase.cloud_fractional_volume_from_n_electrons(n),
                    functions[p](n),
                ]
                names = ["by phase", "function", "CCDPhase", "function made before"]
                # (a low power turns the rounding errors of a notch into a volume)
                size = 1e-14 * max(n, notch)
                least = expected(n - size, full, notch, power)
                most = expected(n + size, full, notch, power)
                for g, name in zip(got, names):
                    near = 1e-9 * max(want, 1e-3)
                    check(
                        least - near <= g <= most + near,
                        "%s: %r electrons in phase %d fill %r (%s) instead of %r"
                        % (stage, n, p, g, name, want),
                        "full well %r, notch %r, power %r" % (full, notch, power),
                    )
                check(0 <= got[0] <= 1, "fractional volume %r" % got[0])
                values.append((n, got[0]))
                count += 0 < want < 1
            values.sort()
            for (n1, v1), (n2, v2) in zip(values[:-1], values[1:]):
                check(v1 <= v2 + 1e-12, "%r electrons fill %r but %r fill %r" % (n1, v1, n2, v2))
            for k, name in (
                ("full_well", "full_well_depth"),
                ("notch", "well_notch_depth"),
                ("power", "well_fill_power"),
            ):
                check(getattr(phase, name) == now[k][p], "CCDPhase has another %s" % name)
            check(
                phase.fraction_of_traps_per_phase == c["fractions"][p],
                "CCDPhase has another fraction of the traps",
            )
        return count

    interior += compare("as made")
    for what, value in case["set"]:
        setattr(ccd, NAMES[what], copy.deepcopy(value))
        now[what] = b_list(value, n_phases)
        interior += compare("after setting %s" % what)
    return interior > 0, ["%d phases" % n_phases, "set" if case["set"] else "as made"]


# ----------------------------------------------------------------------------
# The law decides what is trapped


@st.composite
def trapped(draw):
    ccd = draw(gen.ccds(1))
    return {
        "ccd": ccd,
        "trap": draw(gen.instant_trap(density=gen.log_float(-3, 0))),
        "electrons": draw(gen.log_float(0, 5.5)),
    }


def run_trapped(ac, case):
    """One cloud in one pixel, with plenty of electrons."""
    c, t, n = case["ccd"], case["trap"], case["electrons"]
    volume = expected(n, c["full_well"], c["notch"], c["power"])
    want = min(n, t["density"] * volume * c["fractions"][0])
    for express in (0, 1):
        out = np.asarray(
            ac.add_cti(
                image=np.array([[n]]),
                parallel_ccd=b.ccd(ac, c),
                parallel_traps=b.trap(ac, t),
                parallel_express=express,
            )
        )
        got = n - out[0, 0]
        check(
            abs(got - want) <= 1e-9 * n,
            "%r electrons lost %r to traps instead of %r" % (n, got, want),
        )
    return 0 < volume < 1, []


@st.composite
def phases(draw):
    """Several phases with wells of their own."""
    case = draw(
        gen.cti_cases(
            max_rows=4, max_cols=1, serial=False, window=False, max_phases=4,
            express=st.integers(0, 1), away=st.booleans(),
        )
    )
    p = case["parallel"]
    n = len(p["ccd"]["fractions"])
    for name, value in (
        ("full_well", gen.log_float(2.5, 5.3)),
        ("power", st.floats(0.2, 1.5).map(lambda x: float("%.6g" % x))),
        ("notch", st.sampled_from([0.0, 0.0, 1.0, 20.0, 200.0])),
    ):
        p["ccd"][name] = [draw(value) for _ in range(n)]
    case["phase"] = draw(st.integers(0, n - 1))
    return case


def run_phases(ac, case):
    """Traps in each phase are reached by the law of that phase."""
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    scale = max(image.max(), 1e-300)
    close(out, b.ref_add(case), "each phase with its own well, against the model", 1e-7, scale)
    # If there are traps in one phase only, then the wells of others do not matter
    one = copy.deepcopy(case)
    c, k = one["parallel"]["ccd"], case["phase"]
    n = len(c["fractions"])
    c["fractions"] = [1.0 * (p == k) for p in range(n)]
    given = b.add(ac, one)
    for name in ("full_well", "power", "notch"):
        c[name] = c[name][k]
    close(b.add(ac, one), given, "traps in phase %d only, with other wells elsewhere" % k, 1e-10, scale)
    return moved(image, out) and n > 1, ["images, %d phases" % n]


RULE = (
    "random wells (1 to 5 phases, notches, powers), changed at random, and clouds in, "
    "at and beyond the limits; non-trivial if some cloud partly fills the well"
)
SUBS = [
    Sub("law", lambda t: wells(), run, RULE, 4000, 80000),
    Sub("phases", lambda t: phases(), run_phases, RULE, 400, 8000),
    Sub("trapped", lambda t: trapped(), run_trapped, RULE, 1600, 20000),
]
