"""
Hypothesis strategies for cases: plain dicts of JSON values, so that a shrunk
case can be written to a replay file and read back.
"""
from hypothesis import strategies as st

# ----------------------------------------------------------------------------
# Numbers


def log_float(lo, hi):
    """10**x for lo <= x <= hi; shrinks towards a power of ten."""
    return st.floats(lo, hi, allow_nan=False).map(lambda x: float("%.9g" % 10.0 ** x))


def maybe(strategy, value, weight=3):
    """`value` about one time in `weight` + 1, otherwise from the strategy."""
    return st.integers(0, weight).flatmap(
        lambda i: st.just(value) if i == 0 else strategy
    )


# ----------------------------------------------------------------------------
# Images


@st.composite
def images(draw, max_rows=12, max_cols=4, min_rows=1, min_cols=1, top=5.0, zero=True):
    n_rows = draw(st.integers(min_rows, max_rows))
    n_cols = draw(st.integers(min_cols, max_cols))
    cols = [draw(columns(n_rows, top, zero)) for _ in range(n_cols)]
    return [[cols[c][r] for c in range(n_cols)] for r in range(n_rows)]


@st.composite
def columns(draw, n, top=5.0, zero=True):
    """A column of pixels in one of several shapes."""
    level = log_float(0, top)
    shape = draw(
        st.sampled_from(
            ["sparse", "flat", "delta", "any", "falling", "rising", "close", "tiny"]
        )
    )
    if shape == "flat":
        return [draw(level)] * n
    if shape == "delta":
        out = [0.0 if zero else draw(log_float(-1, 1))] * n
        out[draw(st.integers(0, n - 1))] = draw(level)
        return out
    if shape == "sparse":
        low = st.just(0.0) if zero else log_float(-1, 1)
        return [draw(st.one_of(low, level)) for _ in range(n)]
    if shape in ("falling", "rising"):
        values = sorted((draw(level) for _ in range(n)), reverse=shape == "falling")
        return values
    if shape == "close":
        base = draw(level)
        return [
            base * (1 + draw(st.sampled_from([0, 1e-3, -1e-3, 1e-9, 2 ** -52, -(2 ** -53)])))
            for _ in range(n)
        ]
    if shape == "tiny":
        return [draw(log_float(-6, 1)) for _ in range(n)]
    return [draw(level) for _ in range(n)]


# ----------------------------------------------------------------------------
# Traps, CCD, ROE


def densities():
    return log_float(-2, 4)


def instant_trap(density=None, tau=None):
    return st.fixed_dictionaries(
        {
            "kind": st.just("instant"),
            "density": density or densities(),
            "tau": tau or log_float(-1.5, 2.5),
        }
    )


def slow_trap(density=None, tau=None, tau_c=None):
    return st.fixed_dictionaries(
        {
            "kind": st.just("slow"),
            "density": density or densities(),
            "tau": tau or log_float(-1.5, 2.5),
            "tau_c": tau_c or maybe(log_float(-3, 1.5), 0.0),
        }
    )


def continuum_trap(density=None):
    return st.fixed_dictionaries(
        {
            "kind": st.just("continuum"),
            "density": density or log_float(-2, 3),
            "tau": log_float(-0.5, 1.5),
            "sigma": st.floats(0.1, 1.5).map(lambda x: float("%.6g" % x)),
        }
    )


def few(strategy, most, many=0):
    """A list of 1 to `most`, or rarely one more, or `many` (if there can be several at all)."""
    usual = st.lists(strategy, min_size=1, max_size=most)
    if most < 2:
        return usual
    more = st.lists(strategy, min_size=1, max_size=most + 1)
    lots = st.lists(strategy, min_size=most + 1, max_size=max(many, most + 1))
    return st.integers(0, 15).flatmap(lambda i: lots if i == 15 else more if i > 11 else usual)


def group(kinds, max_species=2, density=None):
    makers = {"instant": instant_trap, "slow": slow_trap, "continuum": continuum_trap}
    return st.sampled_from(list(kinds)).flatmap(
        lambda k: few(makers[k](density=density), max_species, 0 if k == "continuum" else 7)
    )


def groups(kinds=("instant", "slow"), max_groups=2, max_species=2, density=None):
    return few(group(kinds, max_species, density), max_groups)


@st.composite
def ccds(draw, n_phases=1, notch=True, powers=None, fractions=True):
    def per_phase(s):
        if n_phases > 1 and draw(st.booleans()):
            return [draw(s) for _ in range(n_phases)]
        return draw(s)

    full = per_phase(log_float(2.5, 5.3))
    if draw(st.integers(0, 9)) == 9:
        full = 1e4
    if notch and draw(st.integers(0, 3)) == 0:
        depth = per_phase(st.sampled_from([0.0, 1.0, 5.0, 50.0, 200.0]))
    else:
        depth = 0.0
    if n_phases == 1:
        # (not necessarily all of the traps, for only that part of them is there)
        frac = [draw(st.sampled_from([1, 1, 1, 1, 1, 1, 0.5, 2.0, 1e-4]))] if fractions else [1]
    elif fractions and draw(st.booleans()):
        frac = [draw(st.sampled_from([0.0, 1.0, 2.0, 3.0, 0.25])) for _ in range(n_phases)]
        if sum(frac) == 0:
            frac[draw(st.integers(0, n_phases - 1))] = 1.0
        frac = [f / sum(frac) for f in frac]
        if draw(st.integers(0, 3)) == 0:
            # Next to no traps in one of the phases
            frac[draw(st.integers(0, n_phases - 1))] = 1e-4
    else:
        frac = [1 / n_phases] * n_phases
    return {
        "fractions": frac,
        "full_well": full,
        "notch": depth,
        "power": per_phase(powers or st.floats(0.2, 1.5).map(lambda x: float("%.6g" % x))),
    }


def dwell_list(n, zeros=True):
    t = log_float(-1.5, 1.5)
    if zeros and n > 1:
        t = maybe(t, 0.0, 6)
    return st.lists(t, min_size=n, max_size=n)


@st.composite
def roes(
    draw,
    n_phases=1,
    kinds=("standard",),
    first=None,
    between=None,
    away=st.just(True),
    as_int=None,
    zeros=True,
):
    kind = draw(st.sampled_from(list(kinds)))
    n_steps = 2 * n_phases if kind == "pump" else n_phases
    # Sometimes everything that is free has its default value
    plain = n_steps == 1 and draw(st.integers(0, 5)) == 5
    free = st.just(True) if plain else st.booleans()
    first = free if first is None else first
    between = free if between is None else between
    if as_int is None:
        as_int = st.just(False) if plain else st.booleans()
    dwell = [1.0] if plain else draw(dwell_list(n_steps, zeros))
    if sum(dwell) == 0:
        dwell[0] = 1.0
    out = {
        "kind": kind,
        "dwell": dwell,
        "first": draw(first) if kind != "injection" else True,
        "between": draw(between) if kind != "pump" else True,
        "away": draw(away) if kind != "pump" else False,
        "as_int": draw(as_int),
    }
    if kind == "injection":
        out["n_transfers"] = draw(st.one_of(st.none(), st.integers(1, 12)))
    if kind == "pump":
        out["n_pumps"] = draw(st.integers(1, 8))
    return out


def phases(max_phases=3):
    if max_phases == 1:
        return st.just(1)
    some = [1, 1] + list(range(1, max_phases + 1))
    if max_phases < 3:
        return st.sampled_from(some)
    # Now and then more than any known CCD has
    return st.sampled_from(some * 2 + [5, max_phases + 3])


@st.composite
def directions(
    draw,
    max_phases=3,
    kinds=("instant", "slow"),
    roe_kinds=("standard",),
    express=st.integers(0, 6),
    offset=maybe(st.integers(1, 4), 0, 1),
    max_groups=2,
    max_species=2,
    density=None,
    notch=True,
    **roe_args
):
    n = draw(phases(max_phases))
    return {
        "ccd": draw(ccds(n, notch=notch)),
        "roe": draw(roes(n, kinds=roe_kinds, **roe_args)),
        "groups": draw(groups(kinds, max_groups, max_species, density)),
        "express": draw(express),
        "offset": draw(offset),
        "style": draw(styles()),
    }


def styles():
    """
    How a call is written, which makes no difference to what it means: leave out
    arguments that have their default values, and give single items rather than
    lists of one.
    """
    return st.fixed_dictionaries(
        {
            "omit": st.booleans(),
            "single": st.booleans(),
            "traps": st.sampled_from(["nested", "flat", "bare"]),
        }
    )


@st.composite
def windows(draw, n):
    """None, or a non-empty sub-range of range(n), as [start, stop]."""
    if draw(st.booleans()):
        return None
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a + 1, n))
    return [a, b]


@st.composite
def cti_cases(draw, serial=True, window=True, max_rows=10, max_cols=3, **args):
    image = draw(images(max_rows, max_cols))
    which = draw(st.sampled_from(["p", "p", "s", "ps"])) if serial else "p"
    case = {"image": image}
    for letter, name, n in (
        ("p", "parallel", len(image)),
        ("s", "serial", len(image[0])),
    ):
        if letter not in which:
            continue
        d = draw(directions(**args))
        if window:
            w = draw(windows(n))
            if w is not None:
                d["window"] = w
        case[name] = d
    return case


# ----------------------------------------------------------------------------
# Whole cases of particular kinds


def n_rows(case):
    return len(case["image"])


def n_cols(case):
    return len(case["image"][0])


def cover_injection(case):
    """
    Charge injection with more transfers than rows needs an explicit time window
    (a listed finding: the default one silently drops the rest).
    """
    p = case.get("parallel")
    if p is not None and p["roe"]["kind"] == "injection":
        n = p["roe"]["n_transfers"]
        if n is not None and n > n_rows(case) + p["offset"]:
            if case.get("time_window") is None:
                case["time_window"] = [0, n]
    return case


@st.composite
def supported(draw, max_rows=8, max_cols=3, continuum=False, time_window=True, **args):
    """Any supported way of calling add_cti, apart from trap pumping."""
    settings = dict(
        max_rows=max_rows,
        max_cols=max_cols,
        kinds=("continuum", "continuum", "slow") if continuum else ("instant", "slow"),
        roe_kinds=("standard", "standard", "injection"),
        away=st.booleans(),
        max_phases=4,
    )
    settings.update(args)
    case = draw(cti_cases(**settings))
    if time_window and draw(st.integers(0, 3)) == 0:
        n = n_rows(case) + case.get("parallel", {}).get("offset", 0)
        a = draw(st.integers(0, n - 1))
        case["time_window"] = [a, draw(st.integers(a + 1, n))]
    return cover_injection(case)


@st.composite
def pumping(draw, max_rows=6, kinds=("instant", "slow"), max_phases=4):
    """Trap pumping with the traps in one row of the image."""
    image = draw(images(max_rows, 2))
    n = draw(st.integers(1, max_phases))
    return {
        "image": image,
        "parallel": {
            "ccd": draw(ccds(n)),
            "roe": draw(roes(n, kinds=("pump",))),
            "groups": draw(groups(kinds)),
            "express": draw(st.integers(0, 5)),
            "offset": 0,
            "window": draw(st.integers(0, len(image) - 1)),
        },
    }
