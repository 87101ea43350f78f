"""
From a plain (JSON) description of a case to arcticpy objects, and to the
reference model's own inputs.
"""
import copy

import numpy as np

from pbt import ref


def trap(ac, s, omit=False):
    kind = s["kind"]
    if kind == "instant":
        return ac.TrapInstantCapture(density=s["density"], release_timescale=s["tau"])
    if kind == "slow":
        args = dict(density=s["density"], release_timescale=s["tau"])
        if not (omit and s["tau_c"] == 0):
            args["capture_timescale"] = s["tau_c"]
        return ac.Trap(**args)
    if kind == "continuum":
        return ac.TrapLogNormalLifetimeContinuum(
            density=s["density"],
            release_timescale_mu=s["tau"],
            release_timescale_sigma=s["sigma"],
        )
    raise ValueError(kind)


def traps(ac, groups, style=None):
    """The traps as [[Trap]], or if that is possible as [Trap] or Trap."""
    style = style or {}
    out = [[trap(ac, s, style.get("omit")) for s in g] for g in groups]
    form = style.get("traps", "nested")
    if form == "nested" or len(out) != 1:
        return out
    if form == "bare" and len(out[0]) == 1:
        return out[0][0]
    return out[0]


def ccd(ac, c, style=None):
    style = style or {}
    args = {
        "fraction_of_traps_per_phase": c["fractions"],
        "full_well_depth": c["full_well"],
        "well_notch_depth": c["notch"],
        "well_fill_power": c["power"],
    }
    if style.get("omit"):
        for k, v in (
            ("fraction_of_traps_per_phase", [1]),
            ("full_well_depth", 1e4),
            ("well_notch_depth", 0.0),
        ):
            if args[k] == v:
                del args[k]
    if style.get("single") and len(c["fractions"]) == 1:
        args = {k: v[0] if isinstance(v, list) else v for k, v in args.items()}
    return ac.CCD(**args)


def is_default_roe(r):
    """Are these the clocking electronics that are used if none are given?"""
    return (
        r["kind"] == "standard"
        and list(r["dwell"]) == [1.0]
        and all(bool(r[k]) for k in ("first", "between", "away"))
        and not r.get("as_int")
    )


ROE_DEFAULTS = {
    "dwell_times": [1.0],
    "empty_traps_for_first_transfers": True,
    "empty_traps_between_columns": True,
    "force_release_away_from_readout": True,
    "n_pixel_transfers": None,
    "n_pumps": 1,
    "express_matrix_dtype": float,
}


def roe(ac, r, style=None):
    style = style or {}
    args = {
        "dwell_times": list(r["dwell"]),
        "express_matrix_dtype": int if r.get("as_int") else float,
    }
    if r["kind"] == "standard":
        cls = ac.ROE
        args["empty_traps_for_first_transfers"] = r["first"]
        args["empty_traps_between_columns"] = r["between"]
        args["force_release_away_from_readout"] = r["away"]
    elif r["kind"] == "injection":
        cls = ac.ROEChargeInjection
        args["n_pixel_transfers"] = r["n_transfers"]
        args["empty_traps_between_columns"] = r["between"]
        args["force_release_away_from_readout"] = r["away"]
    elif r["kind"] == "pump":
        cls = ac.ROETrapPumping
        args["n_pumps"] = r["n_pumps"]
        args["empty_traps_for_first_transfers"] = r["first"]
    else:
        raise ValueError(r["kind"])
    if style.get("omit"):
        for k in list(args):
            if k in ROE_DEFAULTS and args[k] == ROE_DEFAULTS[k]:
                del args[k]
    if style.get("single") and len(args.get("dwell_times", ())) == 1:
        args["dwell_times"] = args["dwell_times"][0]
    out = cls(**args)
    if r.get("set_first") is not None:
        # Makes no difference where there is no choice
        out.empty_traps_for_first_transfers = r["set_first"]
    return out


def window(w, style=None):
    if w is None or isinstance(w, int):
        return w
    if style and style.get("single") and w[1] == w[0] + 1:
        return w[0]
    return range(w[0], w[1])


def direction(ac, d, prefix):
    """Keyword arguments of add_cti for one clocking direction."""
    if d is None:
        return {}
    style = d.get("style") or {}
    out = {
        prefix + "_ccd": ccd(ac, d["ccd"], style),
        prefix + "_traps": traps(ac, d["groups"], style),
    }
    omit = style.get("omit")
    if not (omit and is_default_roe(d["roe"])):
        out[prefix + "_roe"] = roe(ac, d["roe"], style)
    if not (omit and d["express"] == 0):
        out[prefix + "_express"] = d["express"]
    if not (omit and d["offset"] == 0):
        out[prefix + "_offset"] = d["offset"]
    if d.get("window") is not None:
        out[prefix + "_window_range"] = window(d["window"], style)
    return out


def kwargs(ac, case):
    out = {}
    out.update(direction(ac, case.get("parallel"), "parallel"))
    out.update(direction(ac, case.get("serial"), "serial"))
    # Windows along a direction without any traps
    for name, w in (case.get("windows") or {}).items():
        out[name + "_window_range"] = window(w)
    if case.get("time_window") is not None:
        out["time_window_range"] = window(case["time_window"])
    return out


def add(ac, case, image=None):
    image = np.array(case["image"] if image is None else image, dtype=float)
    return np.asarray(ac.add_cti(image=image, **kwargs(ac, case)))


# ----------------------------------------------------------------------------


def _list(v, n):
    return list(v) if isinstance(v, list) else [v] * n


def ref_ccd(c):
    n = len(c["fractions"])
    return {
        "fractions": list(c["fractions"]),
        "full_well": _list(c["full_well"], n),
        "notch": _list(c["notch"], n),
        "power": _list(c["power"], n),
    }


def ref_groups(groups):
    return [(g[0]["kind"], g) for g in groups]


def sensitivity(case, enough=float("inf"), tries=16):
    """
    How much rounding errors can change the image with CTI of a case, according
    to the reference model (up to `enough`).
    """
    named = isinstance(case, dict) and "image" in case
    given = [case[n] for n in ("parallel", "serial") if named and n in case]
    if not given or not all(isinstance(d, dict) and "groups" in d for d in given):
        return 0.0
    exact = {s["kind"] for d in given for g in d["groups"] for s in g} <= {"instant", "slow"}
    size = 1e-15 if exact else 1e-8
    rng = np.random.RandomState(12345)

    def rounded(v):
        if isinstance(v, list):
            return [rounded(x) for x in v]
        return v * (1 + 1e-15 * rng.uniform(-1, 1))

    def run(noise):
        # The settings have rounding errors too, e.g. in other units
        now = case
        if noise is not None:
            now = copy.deepcopy(case)
            now["image"] = rounded(now["image"])
            for name in ("parallel", "serial"):
                if now.get(name) is not None:
                    for k in ("notch", "full_well"):
                        now[name]["ccd"][k] = rounded(now[name]["ccd"][k])
        return repeated(now, noise)

    def repeated(case, noise):
        image = np.array(case["image"], dtype=float)
        out = ref_add(case, noise=noise)
        done = [out]
        for _ in range(case.get("iterations") or 0):
            image = image + (np.array(case["image"], dtype=float) - out)
            done.append(image)
            out = ref_add(case, image, noise=noise)
        return done

    try:
        exact = run(None)
        worst = 0.0
        for _ in range(tries):
            for x, y in zip(run(lambda: size * rng.uniform(-1, 1)), exact):
                worst = max(worst, float(np.max(np.abs(x - y))))
            if worst >= enough:
                break
        return worst
    except (ArithmeticError, ValueError, LookupError, TypeError):
        return 0.0


def ref_add(case, image=None, stats=None, noise=None):
    """The reference model's add_cti."""
    img = np.array(case["image"] if image is None else image, dtype=float)
    n_rows, n_cols = img.shape
    p, s = case.get("parallel"), case.get("serial")

    def rng(name, n):
        d = case.get(name)
        w = (case.get("windows") or {}).get(name) if d is None else d.get("window")
        if w is None:
            return list(range(n))
        return [w] if isinstance(w, int) else list(range(w[0], w[1]))

    prows = rng("parallel", n_rows)
    srows = rng("serial", n_cols)
    tw = case.get("time_window")
    offset = 0 if p is None else p["offset"]
    if tw is None:
        scols = prows
    else:
        tw = range(tw[0], tw[1])
        scols = [r for r in prows if tw[0] - offset <= r <= tw[-1] - offset]
    if p is not None:
        img = ref.clock(
            img,
            ref_ccd(p["ccd"]),
            p["roe"],
            ref_groups(p["groups"]),
            p["express"],
            p["offset"],
            prows,
            srows,
            tw,
            stats,
            noise,
        )
    if s is not None:
        img = ref.clock(
            img.T,
            ref_ccd(s["ccd"]),
            s["roe"],
            ref_groups(s["groups"]),
            s["express"],
            s["offset"],
            srows,
            scols,
            None,
            stats,
            noise,
        ).T
    return img
