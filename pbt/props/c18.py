"""Traps in a pixel: book-keeping over any history of charge clouds."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen, ref
from pbt.core import Sub, check, fmt
from pbt.props.c14 import clouds

MANAGER = {
    "instant": "TrapManagerInstantCapture",
    "slow": "TrapManager",
    "continuum": "TrapManagerTrackTime",
    "times": "TrapManagerTrackTime",
}


@st.composite
def histories(draw, kinds, max_steps=20):
    kind = draw(st.sampled_from(kinds))
    (group,) = draw(
        gen.groups(
            kinds=("instant" if kind == "times" else kind,),
            max_groups=1,
            max_species=3 if kind != "continuum" else 1,
        )
    )
    return {
        "manager": kind,
        "group": group,
        "ccd": draw(gen.ccds(1)),
        "steps": draw(clouds(max_steps)),
        "room": draw(st.integers(1, 6)),
    }


def valid(m, times, scale, where):
    """The description of the traps makes sense."""
    w = np.array(m.watermarks)
    check(np.all(np.isfinite(w[w[:, 0] > 0])) or times, where + ": not finite", fmt(w))
    check(np.all(w[:, 0] >= 0), where + ": negative volume", fmt(w))
    check(np.sum(w[:, 0]) <= 1 + 1e-9, where + ": volumes beyond the pixel", fmt(w))
    used = w[:, 0] > 0
    n = int(np.sum(used))
    check(np.all(used[:n]), where + ": gap in the levels", fmt(w))
    fills = w[:n, 1:]
    if times:
        check(np.all(fills >= 0), where + ": negative time", fmt(w))
    else:
        check(
            np.all(fills >= -1e-12) and np.all(fills <= 1 + 1e-12),
            where + ": fill fraction outside 0 to 1",
            fmt(w),
        )


def run_history(ac, case):
    kind, specs = case["manager"], case["group"]
    times = kind in ("times", "continuum")
    m = getattr(ac.trap_managers, MANAGER[kind])(
        traps=[b.trap(ac, s) for s in specs],
        max_n_transfers=min(case["room"], len(case["steps"])),
    )
    c = b.ref_ccd(case["ccd"])
    fill = b.ccd(ac, case["ccd"]).well_filling_function(0)
    volume = lambda n: ref.cloud_volume(
        n, c["full_well"][0], c["notch"][0], c["power"][0]
    )
    model = ref.GROUPS["instant" if kind == "times" else kind](specs, 1.0)
    scale = sum(s["density"] for s in specs)
    tol = 1e-5 if kind == "continuum" else 1e-9
    before = 0.0
    most = 0.0
    for i, (n, dwell) in enumerate(case["steps"]):
        net = m.n_electrons_released_and_captured(n, fill, dwell_time=dwell)
        after = m.n_trapped_electrons_from_watermarks(m.watermarks)
        where = "step %d (%g electrons for %g)" % (i, n, dwell)
        slack = 1e-9 * max(scale, n)
        check(np.isfinite(net) and np.isfinite(after), where + ": not finite")
        check(
            abs(before - after - net) <= slack * (100 if kind == "continuum" else 1),
            "%s: %r electrons released but %r fewer trapped" % (where, net, before - after),
        )
        check(net >= -n - slack, "%s: %r captured, more than are there" % (where, -net))
        check(net <= before + slack, "%s: %r released, only %r trapped" % (where, net, before))
        check(-slack <= after <= scale + slack, "%s: %r trapped in %r traps" % (where, after, scale))
        valid(m, times, scale, where)
        want = model.step(n, volume, dwell)
        check(
            abs(net - want) <= tol * max(scale, n) * (i + 1),
            "%s: net release %r, but %r by the model" % (where, net, want),
        )
        check(
            abs(after - model.trapped()) <= tol * max(scale, n) * (i + 1),
            "%s: %r trapped, but %r by the model" % (where, after, model.trapped()),
        )
        before = after
        most = max(most, after)
    m.empty_all_traps()
    left = m.n_trapped_electrons_from_watermarks(m.watermarks)
    check(left == 0, "%r electrons left in emptied traps" % left)
    return most > 0 and len(case["steps"]) > 2, [
        kind,
        "not enough charge" if model.not_enough_events else "plenty",
    ]


# ----------------------------------------------------------------------------
# All the traps: every phase, every group, with saved states


@st.composite
def collections(draw):
    n = draw(st.integers(1, 3))
    groups = draw(gen.groups(max_groups=2, max_species=2))
    step = st.fixed_dictionaries(
        {
            "op": st.just("step"),
            "phase": st.integers(0, n - 1),
            "group": st.integers(0, len(groups) - 1),
            "n": st.one_of(st.just(0.0), gen.log_float(0, 5)),
            "dwell": gen.log_float(-1.5, 1.5),
        }
    )
    other = st.sampled_from([{"op": o} for o in ("save", "restore", "empty")])
    ops = st.lists(st.one_of(step, step, other), min_size=1, max_size=16)
    return {"ccd": draw(gen.ccds(n)), "groups": groups, "ops": draw(ops)}


def run_collection(ac, case):
    ccd = b.ccd(ac, case["ccd"])
    c = b.ref_ccd(case["ccd"])
    n_phases = len(c["fractions"])
    m = ac.AllTrapManager(b.traps(ac, case["groups"]), len(case["ops"]), ccd)
    fresh = lambda: [
        [ref.GROUPS[k](s, c["fractions"][p]) for k, s in b.ref_groups(case["groups"])]
        for p in range(n_phases)
    ]
    model, saved = fresh(), None
    scale = sum(s["density"] for g in case["groups"] for s in g)
    used = set()
    for i, op in enumerate(case["ops"]):
        what = op["op"]
        if what == "step":
            p, g = op["phase"], op["group"]
            net = m[p][g].n_electrons_released_and_captured(
                op["n"], ccd.well_filling_function(p), dwell_time=op["dwell"]
            )
            want = model[p][g].step(
                op["n"],
                lambda n: ref.cloud_volume(
                    n, c["full_well"][p], c["notch"][p], c["power"][p]
                ),
                op["dwell"],
            )
            check(
                abs(net - want) <= 1e-9 * max(scale, op["n"]) * (i + 1),
                "operation %d: net release %r, but %r by the model" % (i, net, want),
            )
        elif what == "save":
            m.save()
            saved = [[g.snapshot() for g in ph] for ph in model]
        elif what == "restore":
            m.restore()
            for j, ph in enumerate(model):
                for k, g in enumerate(ph):
                    g.load(saved[j][k]) if saved is not None else g.clear()
        else:
            m.empty_all_traps()
            for ph in model:
                for g in ph:
                    g.clear()
        used.add(what)
        total = sum(g.trapped() for ph in model for g in ph)
        check(
            abs(m.n_electrons_trapped_currently - total) <= 1e-9 * (scale + 1) * (i + 1),
            "operation %d (%s): %r electrons trapped, but %r by the model"
            % (i, what, m.n_electrons_trapped_currently, total),
        )
    return {"step", "restore"} <= used or {"step", "empty"} <= used, sorted(used)


RULE = "random histories of clouds; non-trivial if something was trapped in 3 steps or more"
SUBS = [
    Sub("history", lambda t: histories(("slow", "instant", "slow")), run_history, RULE, 3000, 60000),
    Sub("times", lambda t: histories(("times",)), run_history, RULE, 600, 10000),
    Sub("continuum", lambda t: histories(("continuum",), 6), run_history, RULE, 120, 1600),
    Sub(
        "collection",
        lambda t: collections(),
        run_collection,
        "random operations on all traps; non-trivial if charge was trapped and then "
        "states restored or emptied",
        1600,
        30000,
    ),
]
