"""Clock sequences move charge as described, for any number of phases."""
import numpy as np
from hypothesis import strategies as st

from pbt import build_objs as b
from pbt import gen, ref
from pbt.core import Sub, arr, check, close, is_image, moved


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["standard", "injection", "pump"]))
    return {
        "roe": draw(gen.roes(n, kinds=(kind,), away=st.booleans())),
        "n_phases": n,
    }


def run_sequence(ac, case):
    r = case["roe"]
    n = case["n_phases"]
    roe = b.roe(ac, r)
    n_steps = len(r["dwell"])
    away = r["away"]
    check(roe.n_phases == n, "%s phases instead of %d" % (roe.n_phases, n))
    check(roe.n_steps == n_steps, "%s steps instead of %d" % (roe.n_steps, n_steps))
    check(list(roe.dwell_times) == r["dwell"], "dwell times %s" % (roe.dwell_times,))
    seq = roe.clock_sequence
    check(len(seq) == n_steps, "%d steps in the clock sequence" % len(seq))
    expect = ref.clocking(n, n_steps, away)
    touched = {0}
    for s, phases in enumerate(seq):
        check(len(phases) == n, "step %d has %d phases" % (s, len(phases)))
        check(sum(bool(p.is_high) for p in phases) == 1, "step %d: not one high phase" % s)
        for f, p in enumerate(phases):
            high, source, release = expect[s][f]
            here = "step %d phase %d of %d: " % (s, f, n)
            check(bool(p.is_high) == high, here + "high is %s" % p.is_high)
            check(
                int(p.capture_from_which_pixel) == source,
                here + "captures from pixel %s instead of %s" % (p.capture_from_which_pixel, source),
            )
            to = [int(q) for q in np.ravel(p.release_to_which_pixels)]
            frac = [float(q) for q in np.ravel(p.release_fraction_to_pixel)]
            check(len(to) == len(frac), here + "%d pixels, %d fractions" % (len(to), len(frac)))
            check(abs(sum(frac) - 1) < 1e-12, here + "releases %s in total" % sum(frac))
            got = sorted(zip(to, frac))
            check(
                [q for q, _ in got] == [q for q, _ in release]
                and all(abs(x - y) < 1e-12 for (_, x), (_, y) in zip(got, release)),
                here + "releases %s instead of %s" % (got, release),
            )
            if away and r["kind"] != "pump":
                check(min(to) >= 0, here + "releases towards the readout")
            touched |= {source} | set(to)
    check(
        sorted(int(i) for i in np.ravel(roe.pixels_accessed_during_clocking)) == sorted(touched),
        "pixels accessed: %s instead of %s" % (roe.pixels_accessed_during_clocking, sorted(touched)),
    )
    return n > 1, ["%d phases" % n, r["kind"]]


@st.composite
def readouts(draw):
    """Multi-phase readout against the model, with charge in few pixels."""
    n = draw(st.integers(2, 7))
    d = draw(
        gen.directions(
            max_phases=1,
            max_groups=1,
            max_species=1,
            kinds=("instant", "slow"),
            express=st.sampled_from([0, 0, 1, 2]),
        )
    )
    d["ccd"] = draw(gen.ccds(n))
    d["roe"] = draw(
        gen.roes(n, kinds=("standard", "injection"), away=st.booleans(), between=st.just(True))
    )
    case = {"image": draw(gen.images(5, 1)), "parallel": d}
    return gen.cover_injection(case)


def run_readout(ac, case):
    image = arr(case["image"])
    out = is_image(b.add(ac, case), image.shape)
    close(out, b.ref_add(case), "multi-phase readout, against the model", 1e-7,
          max(image.max(), 1e-300))
    r = case["parallel"]["roe"]
    return moved(image, out), ["%d phases" % len(r["dwell"]), "away" if r["away"] else "nearest"]


RULE = (
    "random numbers of phases, dwell times and modes; non-trivial if there is more "
    "than one phase (readouts: CTI changed the image)"
)
SUBS = [
    Sub("sequences", lambda t: sequences(), run_sequence, RULE, 2400, 20000),
    Sub("readouts", lambda t: readouts(), run_readout, RULE, 1200, 20000),
]
