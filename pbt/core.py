"""Shared vocabulary of the property modules."""
import numpy as np


class Violation(Exception):
    """
    The property does not hold for the case.

    error : by how much numbers differ, if that is the only reason: it might be
        rounding errors (see worker.run_case)
    """

    def __init__(self, message, error=None):
        super().__init__(message)
        self.error = error


class Sub:
    """
    One executable statement of a property over generated cases.

    strategy : function(tier) -> Hypothesis strategy of plain JSON cases
    run      : function(ac, case) -> (non-trivial?, [tags]); raises Violation
    quick, thorough : number of cases to generate
    """

    def __init__(self, name, strategy, run, rule, quick=400, thorough=4000):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough


def arr(image):
    return np.array(image, dtype=float)


def fmt(a):
    return np.array2string(np.asarray(a), precision=12, threshold=200, max_line_width=140)


def check(condition, message, *parts):
    if not condition:
        raise Violation(message + "".join("\n  " + str(p) for p in parts))


def is_image(out, shape):
    """A usable image: right shape, real, finite."""
    out = np.asarray(out)
    check(
        out.shape == tuple(shape),
        "output has shape %s instead of %s" % (out.shape, tuple(shape)),
    )
    check(
        np.issubdtype(out.dtype, np.floating), "output has dtype %s" % (out.dtype,)
    )
    check(np.all(np.isfinite(out)), "output is not finite", fmt(out))
    return out


def scale_of(*images):
    return max([1e-300] + [float(np.max(np.abs(i))) for i in images if np.size(i)])


def close(a, b, what, rtol=1e-9, scale=None, atol=0.0):
    """Same shape and values, to rtol of the scale of the images."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, "%s: shapes %s and %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return 0.0
    check(
        np.all(np.isfinite(a)) and np.all(np.isfinite(b)),
        "%s: not finite" % what,
        fmt(a),
        fmt(b),
    )
    scale = scale_of(a, b) if scale is None else scale
    err = float(np.max(np.abs(a - b)))
    if not err <= rtol * scale + atol:
        raise Violation(
            "%s: differ by %.6g (allowed %.3g)\n  got\n%s\n  expected\n%s"
            % (what, err, rtol * scale + atol, fmt(a), fmt(b)),
            err,
        )
    return err


def moved(a, b):
    """Has anything noticeable happened between two images?"""
    a, b = np.asarray(a), np.asarray(b)
    return bool(np.max(np.abs(a - b)) > 1e-6 * max(1e-300, np.max(np.abs(a))))
